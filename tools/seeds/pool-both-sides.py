P = 'C04'
EDITS = [('larq_compute_engine/core/bmaxpool.h', 'std::min(filter_width - filter_x_start, input_width - in_x);', 'std::min(filter_width, input_width - in_x) - filter_x_start;')]
NEEDS = 'a window wider than the image that hangs over both the left and the right edge'
BREAKS = 'the last column of the image is left out of the window when the window starts left of the image and also ends right of it'
NATIVE = ('bmaxpool.cc', ['5', '4000'])
