"""Reference effect table of the handler interface.

For every operation: the parameters it reads, the parameters it writes and
how.  Modes: 'w' overwrites every element, 'a' adds to every element,
'wc'/'ac' overwrite/add only where a condition holds, 'alloc' returns new
memory.  The table is the contract documented in base_handler.py; property
P11 checks every backend's source against it.
"""

# name: (reads, {written param: mode}, flags)
OPS = {
    'allocate': ((), {}, ('alloc', 'garbage')),
    'ones': ((), {}, ('alloc', 'ones')),
    'zeros': ((), {}, ('alloc', 'zeros')),
    'create_from_numpy': (('arr',), {}, ('alloc',)),
    'get_numpy_copy': (('mem',), {}, ('alloc',)),
    'copy_to': (('src',), {'dest': 'w'}, ()),
    'copy_to_if': (('src', 'cond'), {'dest': 'wc'}, ()),
    'fill': ((), {'mem': 'w'}, ()),
    'fill_if': (('cond',), {'mem': 'wc'}, ()),
    'set_from_numpy': (('arr',), {'mem': 'w'}, ()),
    'is_fully_finite': (('a',), {}, ()),
    'abs_t': (('a',), {'out': 'w'}, ()),
    'add_into_if': (('a', 'cond'), {'out': 'ac'}, ()),
    'add_mv': (('m', 'v'), {'out': 'w'}, ()),
    'add_st': (('t',), {'out': 'w'}, ()),
    'add_tt': (('a', 'b'), {'out': 'w'}, ()),
    'avgpool2d_backward_batch': (('inputs', 'outputs', 'out_deltas'),
                                 {'in_deltas': 'a'}, ()),
    'avgpool2d_forward_batch': (('inputs',), {'outputs': 'w'}, ()),
    'binarize_v': (('v',), {'out': 'w'}, ()),
    'broadcast_t': (('a',), {'out': 'w'}, ()),
    'clip_t': (('a',), {'out': 'w'}, ()),
    'conv2d_backward_batch': (('inputs', 'weights', 'out_deltas'),
                              {'in_deltas': 'a', 'weight_deltas': 'w',
                               'bias_deltas': 'w'}, ()),
    'conv2d_forward_batch': (('inputs', 'weights', 'bias'),
                             {'outputs': 'w'}, ()),
    'dot_add_mm': (('a', 'b'), {'out': 'a'}, ()),
    'dot_mm': (('a', 'b'), {'out': 'w'}, ()),
    'divide_mv': (('m', 'v'), {'out': 'w'}, ()),
    'divide_tt': (('a', 'b'), {'out': 'w'}, ()),
    'fill_gaussian': ((), {'out': 'w'}, ('random',)),
    'generate_probability_mask': ((), {'mask': 'w'}, ('random',)),
    'index_m_by_v': (('m', 'v'), {'out': 'w'}, ()),
    'log_t': (('a',), {'out': 'w'}, ()),
    'merge_tt': (('a', 'b'), {'out': 'w'}, ()),
    'maxpool2d_backward_batch': (('inputs', 'outputs', 'argmax',
                                  'out_deltas'), {'in_deltas': 'a'}, ()),
    'maxpool2d_forward_batch': (('inputs',), {'outputs': 'w',
                                              'argmax': 'w'}, ()),
    'modulo_tt': (('a', 'b'), {'out': 'w'}, ()),
    'modulo_mm': (('a', 'b'), {'out': 'w'}, ()),
    'mult_add_st': (('t',), {'out': 'a'}, ()),
    'mult_add_tt': (('a', 'b'), {'out': 'a'}, ()),
    'mult_add_mv': (('m', 'v'), {'out': 'a'}, ()),
    'mult_mv': (('m', 'v'), {'out': 'w'}, ()),
    'mult_st': (('t',), {'out': 'w'}, ()),
    'mult_tt': (('a', 'b'), {'out': 'w'}, ()),
    'sign_t': (('a',), {'out': 'w'}, ()),
    'split_add_tt': (('x',), {'out_a': 'a', 'out_b': 'a'}, ()),
    'sqrt_t': (('a',), {'out': 'w'}, ()),
    'subtract_mv': (('m', 'v'), {'out': 'w'}, ()),
    'subtract_tt': (('a', 'b'), {'out': 'w'}, ()),
    'sum_t': (('a',), {'out': 'w'}, ()),
    'rel': (('x',), {'y': 'w'}, ()),
    'rel_deriv': (('x', 'y', 'dy'), {'dx': 'w'}, ()),
    'sigmoid': (('x',), {'y': 'w'}, ()),
    'sigmoid_deriv': (('x', 'y', 'dy'), {'dx': 'w'}, ()),
    'softmax_m': (('m',), {'out': 'w'}, ()),
    'tanh': (('x',), {'y': 'w'}, ()),
    'tanh_deriv': (('x', 'y', 'dy'), {'dx': 'w'}, ()),
    'el': (('x',), {'y': 'w'}, ()),
    'el_deriv': (('x', 'y', 'dy'), {'dx': 'w'}, ()),
}
# which of x, y the activation derivatives really read is checked per backend

ACTS = ('sigmoid', 'rel', 'tanh', 'linear', 'el')
