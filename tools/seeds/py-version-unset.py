P = 'C26'
F = 'larq_compute_engine/mlir/python/converter.py'
EDITS = [(F, '''    saved_model_version = saved_model_pb.saved_model_schema_version
    if saved_model_version not in (1, 2):''', '''    saved_model_version = saved_model_pb.saved_model_schema_version or 1
    if saved_model_version not in (1, 2):''')]
NEEDS = 'a saved model that does not state its version'
BREAKS = 'a saved model of an unsupported version is converted as version 1'
NATIVE = ('convert.py', ['3', '6000'])
