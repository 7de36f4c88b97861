K = 'handlers/_cpuop.pyx'
CASES = [
    ('pool-end', 'bad', [(K, "y_max = int_min(y + pool_h, in_h)", "y_max = y + pool_h")]),
    ('pool-start', 'bad', [(K, "x_min = int_max(x, 0)", "x_min = x")]),
    ('argmax-w', 'bad', [(K, "in_y = map_loc // in_w\n", "in_y = map_loc // in_h\n")]),
    ('argmax-none', 'ok', [(K, "if in_y >= 0 and in_x >= 0:", "if True:")]),
    ('im2col-le', 'bad', [(K, "if 0 <= ih < height and 0 <= iw < width:\n                            flat_col", "if 0 <= ih <= height and 0 <= iw < width:\n                            flat_col")]),
    ('col2im-neg', 'bad', [(K, "if 0 <= ih < height and 0 <= iw < width:\n                            for idx", "if ih < height and iw < width:\n                            for idx")]),
    ('height-col', 'bad', [(K, "cdef int height_col = (height + pad_t + pad_b - kernel_h) // stride_h + 1", "cdef int height_col = (height + pad_t + pad_b) // stride_h")]),
    ('order', 'ok', [(K, "if 0 <= ih < height and 0 <= iw < width:\n                            for idx", "if iw >= 0 and iw < width and ih >= 0 and ih < height:\n                            for idx")]),
    ('crop', 'bad', [(K, "for l in range(0, width):", "for l in range(0, width + 1):")]),
    ('crop-swap', 'bad', [(K, "start_row = row_indices[i]\n            start_col = col_indices[i]", "start_row = col_indices[i]\n            start_col = row_indices[i]")]),
    ('crop-batch', 'bad', [(K, "cdef int batch_size = row_indices.shape[0]", "cdef int batch_size = inputs.shape[0]")]),
    ('crop-range', 'ok', [(K, "for k in range(0, height):", "for k in range(height):")]),
]
