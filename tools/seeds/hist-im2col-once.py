P = 'C13'
EDITS = [('larq_compute_engine/tflite/kernels/bconv2d.cc', '''    if (op_data->im2col_id == kTensorNotAllocated) {
      context->AddTensors(context, 1, &op_data->im2col_id);
    }
''', '''    const bool fresh_im2col = op_data->im2col_id == kTensorNotAllocated;
    if (fresh_im2col) {
      context->AddTensors(context, 1, &op_data->im2col_id);
    }
'''), ('larq_compute_engine/tflite/kernels/bconv2d.cc', '''    TF_LITE_ENSURE_STATUS(context->ResizeTensor(context, im2col, im2col_size));
''', '''    if (fresh_im2col || im2col->dims->data[1] != im2col_size->data[1] ||
        im2col->dims->data[2] != im2col_size->data[2]) {
      TF_LITE_ENSURE_STATUS(
          context->ResizeTensor(context, im2col, im2col_size));
    } else {
      TfLiteIntArrayFree(im2col_size);
    }
''')]
NEEDS = 'the matrix-multiply kernel: prepare, evaluate, resize only the batch dimension, prepare, evaluate'
BREAKS = 'the scratch tensor keeps the size of the old batch'
NATIVE = ('bconv.cc', ['5', '6000', 'history'])
