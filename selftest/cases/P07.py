K = 'handlers/_cpuop.pyx'
N = 'handlers/numpy_handler.py'
G = 'handlers/pycuda_handler.py'
C = 'layers/convolution_layer_2d.py'
P = 'layers/pooling_layer_2d.py'
CASES = [
    ('argmax-idx', 'ok', [(K, "max_idx = (in_y * in_w + in_x) * \\\n                                              n_channels + c", "max_idx = (in_y * in_w + in_x) * n_channels")]),
    ('argmax-ge', 'ok', [(K, "if new_value > value:", "if new_value >= value:")]),
    ('min-zero', 'bad', [(K, "min_value = -FLT_MAX", "min_value = 0"), (K, "min_value = -DBL_MAX", "min_value = 0")]),
    ('empty-zero', 'bad', [(K, "                        if max_idx == -1:\n                            outputs[i, y_out, x_out, c] = 0\n", "")]),
    ('col2im-skip', 'bad', [(K, "im_patch_idx += channels * (width - kernel_w)", "im_patch_idx += channels * (width - kernel_h)")]),
    ('col2im-w', 'bad', [(K, "if 0 <= ih < height and 0 <= iw < width:\n                            for idx", "if 0 <= ih < height and 0 <= iw < height:\n                            for idx")]),
    ('avg-count', 'bad', [(K, "                        pool_size = int_max((y_max - y_min) * (x_max - x_min),\n                                            1)", "                        pool_size = pool_h * pool_w")]),
    ('avg-bwd-count', 'bad', [(K, "pool_size = (y_max - y_min) * (x_max - x_min)\n", "pool_size = pool_h * pool_w\n")]),
    ('avg-bwd-set', 'bad', [(K, "in_deltas[i, yy, xx, c] += \\\n                                     out_deltas", "in_deltas[i, yy, xx, c] = \\\n                                     out_deltas")]),
    ('max-bwd-once', 'bad', [(K, "in_deltas[i, in_y, in_x, c] += \\\n", "in_deltas[i, in_y, in_x, c] = \\\n")]),
    ('stride-swap', 'bad', [(N, "padding, padding, padding, padding, stride[0], stride[1], col.reshape(col.size))\n            reshaped_params", "padding, padding, padding, padding, stride[1], stride[0], col.reshape(col.size))\n            reshaped_params")]),
    ('stride-swap-bwd', 'bad', [(N, "stride[0], stride[1], in_deltas[i]", "stride[1], stride[0], in_deltas[i]")]),
    ('kernel-swap', 'bad', [(N, "brainstorm.handlers._cpuop.col2im(col.reshape(col.size), input_rows, input_cols, num_input_maps, kernel_shape[0], kernel_shape[1]", "brainstorm.handlers._cpuop.col2im(col.reshape(col.size), input_rows, input_cols, num_input_maps, kernel_shape[1], kernel_shape[0]")]),
    ('pool-stride', 'bad', [(K, "cdef int stride_x = strides[1]\n    cdef int stride_y = strides[0]\n    cdef int n_inputs = inputs.shape[0]\n    cdef int n_channels = inputs.shape[3]\n    cdef int in_h = inputs.shape[1]\n    cdef int in_w = inputs.shape[2]\n    cdef int out_h = outputs.shape[1]\n    cdef int out_w = outputs.shape[2]\n    cdef int i, c, y, x, y_out, x_out\n    cdef int y_min, y_max, x_min, x_max\n    cdef int in_y, in_x\n", "cdef int stride_x = strides[0]\n    cdef int stride_y = strides[1]\n    cdef int n_inputs = inputs.shape[0]\n    cdef int n_channels = inputs.shape[3]\n    cdef int in_h = inputs.shape[1]\n    cdef int in_w = inputs.shape[2]\n    cdef int out_h = outputs.shape[1]\n    cdef int out_w = outputs.shape[2]\n    cdef int i, c, y, x, y_out, x_out\n    cdef int y_min, y_max, x_min, x_max\n    cdef int in_y, in_x\n")]),
    ('bias-sum', 'bad', [(N, "dbias += np.sum(reshaped_out_deltas, axis=0)", "dbias[:] = np.sum(reshaped_out_deltas, axis=0)")]),
    ('bias-loop', 'ok', [(N, "dbias += np.sum(reshaped_out_deltas, axis=0)", "dbias[:] = dbias + reshaped_out_deltas.sum(axis=0)")]),
    ('col-once', 'ok', [(N, "            col = np.zeros((num_output_pixels, num_kernel_params), dtype=self.dtype)\n            brainstorm.handlers._cpuop.im2col(inputs[i].reshape(inputs[i].size), input_rows, input_cols, num_input_maps, kernel_shape[0], kernel_shape[1], padding, padding, padding, padding, stride[0], stride[1], col.reshape(col.size))\n            reshaped_params", "            col = np.empty((num_output_pixels, num_kernel_params), dtype=self.dtype)\n            brainstorm.handlers._cpuop.im2col(inputs[i].reshape(-1), input_rows, input_cols, num_input_maps, kernel_shape[0], kernel_shape[1], padding, padding, padding, padding, stride[0], stride[1], col.reshape(-1))\n            reshaped_params")]),
    ('bias-shape', 'bad', [(N, "outputs += bias.reshape((1, 1, 1, num_filters))", "outputs[0] += bias.reshape((1, 1, num_filters))")]),
    ('gpu-wcol', 'bad', [(G, "np.int32(outputs.shape[2]), np.int32(num_input_maps), col.gpudata", "np.int32(outputs.shape[1]), np.int32(num_input_maps), col.gpudata")]),
    ('gpu-stride', 'bad', [(G, "int w_in = w_out * stride_w - pad_l;", "int w_in = w_out * stride_h - pad_l;")]),
    ('gpu-col2im', 'bad', [(G, "int w_col_start = (w < patch_w) ? 0", "int w_col_start = (w <= patch_w) ? 0")]),
    ('gpu-avg', 'bad', [(G, "int pool_size = max((hend - hstart) * (wend - wstart), 1);", "int pool_size = kernel_h * kernel_w;")]),
    ('gpu-avg-order', 'bad', [(G, "int pool_size = max((hend - hstart) * (wend - wstart), 1);", "int pool_size = max((hend - (ph * stride_h - pad_t)) * (wend - wstart), 1);")]),
    ('gpu-size', 'bad', [(G, "_avepool_bwd_fp32_impl(np.int32(inputs.size)", "_avepool_bwd_fp32_impl(np.int32(outputs.size)")]),
    ('gpu-set', 'bad', [(G, "bottom_diff[index] += gradient;", "bottom_diff[index] = gradient;")]),
    ('gpu-window', 'bad', [(G, "_maxpool_fwd_fp32_impl(np.int32(outputs.size), inputs, np.int32(h), np.int32(w), np.int32(c), np.int32(o_h), np.int32(o_w), np.int32(window[0]), np.int32(window[1])", "_maxpool_fwd_fp32_impl(np.int32(outputs.size), inputs, np.int32(h), np.int32(w), np.int32(c), np.int32(o_h), np.int32(o_w), np.int32(window[1]), np.int32(window[0])")]),
    ('gpu-loc', 'ok', [(G, "int idx = (h * width + w) * channels + c;", "const int idx = c + channels * (w + width * h);"), (G, "if (bottom_data[idx] > maxval)", "if (maxval < bottom_data[idx])")]),
    ('layer-stride', 'bad', [(C, "stride[1] + 1", "stride[0] + 1")]),
    ('layer-pad', 'bad', [(C, "_h.conv2d_backward_batch(flat_inputs, W, self.padding", "_h.conv2d_backward_batch(flat_inputs, W, 0")]),
    ('layer-pool', 'bad', [(P, "_h.avgpool2d_forward_batch(flat_inputs, self.kernel_size, flat_outputs, self.padding, self.stride)", "_h.avgpool2d_forward_batch(flat_inputs, self.kernel_size, flat_outputs, self.padding, self.stride[::-1])")]),
    ('layer-tuple', 'ok', [(C, "kernel_x, kernel_y = self.kernel_size", "kernel_x = self.kernel_size[0]\n        kernel_y = self.kernel_size[1]")]),
    ('layer-size', 'bad', [(P, "output_width = (in_shape[1] + 2 * padding - kernel_size[1]) // stride[1] + 1", "output_width = (in_shape[1] + padding - kernel_size[1]) // stride[1] + 1")]),
    ('while', 'ok', [(K, "int_max(y, 0)", "(y if y > 0 else 0)")]),
    ('helper', 'ok', [(K, "cdef inline int int_min", "cdef inline int clip0(int a) nogil: return int_max(a, 0)\ncdef inline int int_min"), (K, "y_min = int_max(y, 0)", "y_min = clip0(y)")]),
]
