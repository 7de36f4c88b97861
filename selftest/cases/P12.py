N = 'handlers/numpy_handler.py'
G = 'handlers/pycuda_handler.py'
CASES = [
    ('global-max', 'bad', [(N, "maxes = np.amax(m, axis=1, keepdims=True)", "maxes = np.amax(m)")]),
    ('no-max', 'bad', [(N, "maxes = np.amax(m, axis=1, keepdims=True)", "maxes = 0")]),
    ('softmax-place', 'ok', [(N, "e = np.exp(m - maxes)\n        out[:] = e / np.sum(e, axis=1, keepdims=True)", "np.subtract(m, m.max(axis=1)[:, np.newaxis], out)\n        np.exp(out, out)\n        out /= out.sum(axis=1)[:, np.newaxis]")]),
    ('softmax-rows', 'ok', [(N, "e = np.exp(m - maxes)\n        out[:] = e / np.sum(e, axis=1, keepdims=True)", "for i in range(m.shape[0]):\n            e = np.exp(m[i] - maxes[i])\n            out[i] = e / np.sum(e)")]),
    ('merge-tail', 'bad', [(N, "out_flat[:, sa:] = b", "out_flat[:, -sa:] = b")]),
    ('merge-cat', 'ok', [(N, "        sa = a.shape[-1]\n        out_flat[:, :sa] = a.reshape(-1, a.shape[-1])\n        out_flat[:, sa:] = b.reshape(-1, b.shape[-1])", "        out_flat[:] = np.concatenate((a.reshape(-1, a.shape[-1]), b.reshape(-1, b.shape[-1])), axis=1)")]),
    ('split-tail', 'bad', [(N, "ob[:] += x_flat[:, oa.shape[-1]:]", "ob[:] += x_flat[:, ob.shape[-1]:]")]),
    ('cuda-zero-max', 'bad', [(G, "float cur_max = -FLT_MAX;", "float cur_max = 0;"), (G, "cur_max = -FLT_MAX;", "cur_max = 0;")]),
    ('cuda-no-sync', 'bad', [(G, "sum += x;\\n        }\\n        max_vals[threadIdx.x] = sum;\\n        __syncthreads();", "sum += x;\\n        }\\n        max_vals[threadIdx.x] = sum;")]),
    ('cuda-fmax', 'ok', [(G, "                if (max_vals[i] > cur_max)\\n                    cur_max = max_vals[i];", "                cur_max = (cur_max > max_vals[i]) ? cur_max : max_vals[i];")]),
]
