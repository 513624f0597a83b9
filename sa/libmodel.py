"""Model of the external library calls that matter for aliasing and mutation."""

# numpy functions whose result may share memory with their first argument
NP_ALIAS0 = {
    'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'require',
    'atleast_1d', 'atleast_2d', 'atleast_3d', 'ravel', 'reshape', 'squeeze',
    'transpose', 'swapaxes', 'moveaxis', 'rollaxis', 'broadcast_to', 'real',
    'imag', 'real_if_close', 'diagonal', 'diag', 'flip', 'fliplr', 'flipud',
    'rot90', 'expand_dims', 'split', 'array_split', 'hsplit', 'vsplit',
    'dsplit', 'broadcast_arrays', 'asmatrix', 'nditer', 'ndenumerate', 'frombuffer',
    'matrix_transpose', 'permute_dims', 'unstack', 'meshgrid_view', 'asarray_chkfinite',
}
# functions that write into one of their arguments (position)
NP_MUT_ARG = {
    'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0,
    'put_along_axis': 0, 'random.shuffle': 0,
}
ALIAS_METHODS = {
    'reshape', 'ravel', 'view', 'squeeze', 'transpose', 'swapaxes', 'diagonal',
    'get', 'setdefault', 'pop', 'popitem', 'values', 'items', '__getitem__',
    'byteswap_', 'newbyteorder', 'getfield',
}
ALIAS_ATTRS = {'T', 'real', 'imag', 'flat', 'mT', 'base'}
MUT_METHODS = {
    'append', 'extend', 'insert', 'remove', 'clear', 'sort', 'reverse',
    'update', 'setdefault', 'popitem', 'add', 'discard', 'fill', 'put',
    'itemset', 'resize', 'partition', 'setfield', 'setflags', '__setitem__',
    '__delitem__', 'appendleft', 'popleft', 'extendleft', 'pop', 'move_to_end',
    'difference_update', 'intersection_update', 'symmetric_difference_update',
    '__iadd__', 'rotate',
}
# these are so common as methods of other objects that only data containers count
AMBIGUOUS_MUT = {'update', 'add', 'remove', 'insert', 'resize', 'reverse', 'put', 'clear'}

# calls that surely return a new, unaliased object
FRESH_BUILTINS = {
    'len', 'int', 'float', 'str', 'bool', 'abs', 'sum', 'range', 'isinstance',
    'issubclass', 'type', 'repr', 'round', 'complex', 'hash', 'id', 'print',
    'input', 'any', 'all', 'divmod', 'pow', 'ord', 'chr', 'hex', 'bin', 'format',
    'hasattr', 'callable', 'open', 'bytes', 'bytearray', 'slice', 'super', 'vars',
    'dir', 'issubclass',
}
# results whose elements alias the elements of the arguments
ELEM_BUILTINS = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'zip',
                 'enumerate', 'iter', 'filter', 'dict', 'min', 'max', 'next'}

SCALAR_ANN = {'int', 'float', 'bool', 'str', 'complex', 'bytes', 'None', 'tuple'}

OUT_KW = {'out'}
OVERWRITE_KW = {'overwrite_input', 'overwrite_a', 'overwrite_b', 'overwrite_x',
                'overwrite_data', 'overwrite_ab', 'overwrite_y'}
