P = 'C25'
EDITS = [('larq_compute_engine/mlir/python/common.cc', '''      if (entry_function != nullptr) {
        return errors::InvalidArgument(
            "There should be only one tf.entry_function");
      }
      entry_function = func;''', '''      if (entry_function != nullptr &&
          entry_function->getAttr("tf.entry_function") == tf_attrs) {
        return errors::InvalidArgument(
            "There should be only one tf.entry_function");
      }
      entry_function = func;''')]
NEEDS = 'a saved model with two different entry functions'
BREAKS = 'the model is converted with the inputs of one of them'
NATIVE = ('passes.cc', ['3', '8000'])
