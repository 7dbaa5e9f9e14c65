"""
Behaviour-preserving edits of bartz, on which the checks must stay quiet.

python tools/refactors.py [SET...] [-- CHECK...]  applies each set to a scratch copy and runs the checks on it.
"""
import os
import shutil
import subprocess
import sys
import tempfile

MS, GR, JX, PC, LOOP, BA, DBG = (f + '.py' for f in ('mcmcstep', 'grove', 'jaxext', 'prepcovars', 'mcmcloop', 'BART', 'debug'))

SETS = {}

SETS['moves'] = [
    (MS, """    key, subkey = random.split(key)
    bart = sample_trees(bart, subkey)
    return sample_sigma(bart, key)
""", """    keys = random.split(key)
    new_trees = sample_trees(bart, keys[1])
    out = sample_sigma(new_trees, keys[0])
    return out
"""),
    (MS, """    u, logu = random.uniform(key, (2, ntree), bart['opt']['large_float'])
""", """    uniforms = random.uniform(key, (2, ntree), bart['opt']['large_float'])
    u = uniforms[0]
    logu = uniforms[1]
"""),
    (MS, """    p_grow = jnp.where(grow_allowed & prune_moves['allowed'], 0.5, grow_allowed)
""", """    only_one = jnp.where(grow_allowed, 1.0, 0.0)
    p_grow = jnp.where(prune_moves['allowed'] & grow_allowed, 0.5, only_one)
"""),
    (MS, """    left = node << 1
    right = left + 1

    return dict(""", """    left = 2 * node
    right = 2 * node + 1

    return dict("""),
    (MS, """    num_growable = jnp.count_nonzero(is_growable)
    distr =""", """    num_growable = jnp.sum(is_growable)
    distr ="""),
    (MS, """    return jnp.searchsorted(ecdf, u, 'right'), ecdf[-1]
""", """    total = ecdf[-1]
    index = jnp.sum(ecdf <= u)
    return index, total
"""),
    (MS, """    def loop(carry, _):
        i, index, ancestor_vars = carry
        index >>= 1
        var = var_tree[index]
        var = jnp.where(index, var, max_split.size)
        ancestor_vars = ancestor_vars.at[i].set(var)
        return (i - 1, index, ancestor_vars), None
    (_, _, ancestor_vars), _ = lax.scan(loop, carry, None, ancestor_vars.size)
    return ancestor_vars
""", """    index = node_index
    for i in reversed(range(max_num_ancestors)):
        index = index // 2
        var = jnp.where(index != 0, var_tree[index], max_split.size)
        ancestor_vars = ancestor_vars.at[i].set(var.astype(ancestor_vars.dtype))
    return ancestor_vars
"""),
    (MS, """    def loop(carry, _):
        l, r, index = carry
        right_child = (index & 1).astype(bool)
        index >>= 1
        split = split_tree[index]
        cond = (var_tree[index] == ref_var) & index.astype(bool)
        l = jnp.where(cond & right_child, jnp.maximum(l, split), l)
        r = jnp.where(cond & ~right_child, jnp.minimum(r, split), r)
        return (l, r, index), None
    (l, r, _), _ = lax.scan(loop, carry, None, max_num_ancestors)
    return l + 1, r
""", """    def body(_, carry):
        l, r, index = carry
        is_right = index % 2 == 1
        parent = index // 2
        relevant = (parent > 0) & (var_tree[parent] == ref_var)
        split = split_tree[parent].astype(r.dtype)
        l = jnp.where(relevant & is_right & (split > l), split, l)
        r = jnp.where(relevant & ~is_right & (split < r), split, r)
        return l, r, parent
    l, r, _ = lax.fori_loop(0, max_num_ancestors, body, carry)
    return 1 + l, r
"""),
    (MS, """    var_to_ignore = fully_used_variables(var_tree, split_tree, max_split, leaf_index)
    has_splits = max_split.astype(bool)
    return randint_masked(key, has_splits.at[var_to_ignore].set(False))
""", """    variables = jnp.arange(max_split.size)
    l, r = jax.vmap(lambda v: split_range(var_tree, split_tree, max_split, leaf_index, v))(variables)
    return randint_masked(key, l < r)
"""),
    (MS, """    ecdf = jnp.cumsum(mask)
    u = random.randint(key, (), 0, ecdf[-1])
    return jnp.searchsorted(ecdf, u, 'right')
""", """    count = jnp.cumsum(mask)
    num_allowed = count[-1]
    u = random.randint(key, (), 0, num_allowed)
    return jnp.count_nonzero(count <= u)
"""),
]

SETS['ratio'] = [
    (MS, """    p_grow = jnp.where(prune_allowed, 0.5, 1)

    inv_trans_ratio = p_grow * prob_choose * num_prunable

    depth = grove.tree_depths(2 ** (p_nonterminal.size - 1))[leaf_to_grow]
    p_parent = p_nonterminal[depth]
    cp_children = 1 - p_nonterminal[depth + 1]
    tree_ratio = cp_children * cp_children * p_parent / (1 - p_parent)

    return tree_ratio / inv_trans_ratio
""", """    depths = grove.tree_depths(2 ** (p_nonterminal.size - 1))
    depth = depths[leaf_to_grow]
    p_parent, p_child = p_nonterminal[depth], p_nonterminal[depth + 1]
    odds = p_parent / (1 - p_parent)
    tree_ratio = odds * (1 - p_child) ** 2

    forward = num_prunable * prob_choose
    forward = jnp.where(prune_allowed, forward / 2, forward)
    return tree_ratio / forward
"""),
    (MS, """    moves['log_trans_prior_ratio'] = jnp.log(moves.pop('partial_ratio') * p_prune)
    return moves
""", """    partial = moves.pop('partial_ratio')
    moves['log_trans_prior_ratio'] = jnp.log(p_prune * partial)
    return moves
"""),
    (MS, """    grow_again_allowed = other_growable_leaves | new_leaves_growable
    grow_p_prune = jnp.where(grow_again_allowed, 0.5, 1)

    # calculation in case the move is prune
    prune_p_prune = jnp.where(moves['num_growable'], 0.5, 1)

    return jnp.where(moves['grow'], grow_p_prune, prune_p_prune)
""", """    can_grow = jnp.where(moves['grow'], other_growable_leaves | new_leaves_growable, moves['num_growable'] > 0)
    return jnp.where(can_grow, 0.5, 1.0)
"""),
    (MS, """    prelkv = dict()
    prelkv['sigma2_left'] = sigma2 + move_counts['left'] * sigma_mu2
    prelkv['sigma2_right'] = sigma2 + move_counts['right'] * sigma_mu2
    prelkv['sigma2_total'] = sigma2 + move_counts['total'] * sigma_mu2
    prelkv['sqrt_term'] = jnp.log(
        sigma2 * prelkv['sigma2_total'] /
        (prelkv['sigma2_left'] * prelkv['sigma2_right'])
    ) / 2
""", """    prelkv = {
        f'sigma2_{side}': sigma2 + sigma_mu2 * move_counts[side]
        for side in ('left', 'right', 'total')
    }
    num = prelkv['sigma2_total'] * sigma2
    den = prelkv['sigma2_right'] * prelkv['sigma2_left']
    prelkv['sqrt_term'] = 0.5 * jnp.log(num / den)
"""),
    (MS, """    exp_term = prelk['exp_factor'] * (
        left_resid * left_resid / prelkv['sigma2_left'] +
        right_resid * right_resid / prelkv['sigma2_right'] -
        total_resid * total_resid / prelkv['sigma2_total']
    )
    return prelkv['sqrt_term'] + exp_term
""", """    def term(resid, name):
        return jnp.square(resid) / prelkv[f'sigma2_{name}']
    exp_term = term(left_resid, 'left') + term(right_resid, 'right')
    exp_term -= term(total_resid, 'total')
    return prelk['exp_factor'] * exp_term + prelkv['sqrt_term']
"""),
    (MS, """    prec_lk = count_trees / sigma2
    var_post = lax.reciprocal(prec_lk + ntree) # = 1 / (prec_lk + prec_prior)
""", """    var_post = 1 / (ntree + count_trees / sigma2)
"""),
    (MS, """    acc = move['allowed'] & (move['logu'] <= log_ratio)
    if min_points""", """    threshold_ok = log_ratio >= move['logu']
    acc = jnp.logical_and(threshold_ok, move['allowed'])
    if min_points"""),
    (MS, """    mean_post = resid_tree * prelf['mean_factor']
    leaf_tree = mean_post + prelf['centered_leaves']
""", """    leaf_tree = prelf['centered_leaves'] + prelf['mean_factor'] * resid_tree
"""),
    (MS, """    to_prune = acc ^ move['grow']
    leaf_tree = (leaf_tree
        .at[jnp.where(to_prune, left, leaf_tree.size)]
        .set(leaf_tree[node])
        .at[jnp.where(to_prune, right, leaf_tree.size)]
        .set(leaf_tree[node])
    )
""", """    to_prune = acc != move['grow']
    indices = jnp.arange(leaf_tree.size)
    copy = to_prune & ((indices == left) | (indices == right))
    leaf_tree = jnp.where(copy, leaf_tree[node], leaf_tree)
"""),
    (MS, """    resid += (initial_leaf_tree - leaf_tree)[leaf_indices]
""", """    resid = resid + initial_leaf_tree[leaf_indices] - leaf_tree[leaf_indices]
"""),
]

SETS['indices'] = [
    (MS, """    left_child = moves['node'].astype(leaf_indices.dtype) << 1
    go_right = X[moves['grow_var'], :] >= moves['grow_split']
    tree_size = jnp.array(2 * moves['var_trees'].size)
    node_to_update = jnp.where(moves['grow'], moves['node'], tree_size)
    return jnp.where(
        leaf_indices == node_to_update,
        left_child + go_right,
        leaf_indices,
    )
""", """    x = X[moves['grow_var']]
    child = jnp.where(x < moves['grow_split'], moves['left'], moves['right'])
    in_node = moves['grow'] & (leaf_indices == moves['node'])
    return jnp.where(in_node, child.astype(leaf_indices.dtype), leaf_indices)
"""),
    (MS, """    counts = dict()
    counts['left'] = count_trees[tree_indices, moves['left']]
    counts['right'] = count_trees[tree_indices, moves['right']]
    counts['total'] = counts['left'] + counts['right']
""", """    get_count = lambda side: count_trees[tree_indices, moves[side]]
    counts = dict(left=get_count('left'), right=get_count('right'))
    counts['total'] = counts['right'] + counts['left']
"""),
    (MS, """    def loop(_, leaf_indices):
        return None, _aggregate_scatter(1, leaf_indices, tree_size, jnp.uint32)
    _, count_trees = lax.scan(loop, None, leaf_indices)
    return count_trees
""", """    count = lambda indices: _aggregate_scatter(1, indices, tree_size, jnp.uint32)
    return lax.map(count, leaf_indices)
"""),
    (MS, """    nbatches = n // batch_size + bool(n % batch_size)
    batch_indices = jnp.arange(n) % nbatches
    return (jnp
        .zeros((size, nbatches), dtype)
        .at[indices, batch_indices]
        .add(values)
        .sum(axis=1)
    )
""", """    nbatches = -(-n // batch_size)
    batch_indices = jnp.arange(n) // batch_size
    partial = jnp.zeros((nbatches, size), dtype)
    partial = partial.at[batch_indices, indices].add(values)
    return jnp.sum(partial, axis=0)
"""),
    (MS, """    values_at_node = leaf_trees[moves['node']]
    return (leaf_trees
        .at[jnp.where(moves['grow'], moves['left'], leaf_trees.size)]
        .set(values_at_node)
        .at[jnp.where(moves['grow'], moves['right'], leaf_trees.size)]
        .set(values_at_node)
    )
""", """    value = leaf_trees[moves['node']]
    children = jnp.stack([moves['left'], moves['right']])
    updated = leaf_trees.at[children].set(value)
    return jnp.where(moves['grow'], updated, leaf_trees)
"""),
    (MS, """    mask = ~jnp.array(1, leaf_indices.dtype) # ...1111111110
    is_child = (leaf_indices & mask) == moves['left']
    return jnp.where(
        is_child & moves['to_prune'],
        moves['node'].astype(leaf_indices.dtype),
        leaf_indices,
    )
""", """    is_child = (leaf_indices == moves['left']) | (leaf_indices == moves['right'])
    pruned = jnp.where(is_child, moves['node'], leaf_indices).astype(leaf_indices.dtype)
    return jnp.where(moves['to_prune'], pruned, leaf_indices)
"""),
    (MS, """    return (split_trees
        .at[jnp.where(
            moves['grow'],
            moves['node'],
            split_trees.size,
        )]
        .set(moves['grow_split'].astype(split_trees.dtype))
        .at[jnp.where(
            moves['to_prune'],
            moves['node'],
            split_trees.size,
        )]
        .set(0)
    )
""", """    new_split = jnp.where(moves['to_prune'], 0, moves['grow_split']).astype(split_trees.dtype)
    changed = moves['grow'] | moves['to_prune']
    index = jnp.where(changed, moves['node'], split_trees.size)
    return split_trees.at[index].set(new_split, mode='drop')
"""),
    (MS, """    bart = bart.copy()
    bart['grow_acc_count'] = jnp.sum(moves['acc'] & moves['grow'])
    bart['prune_acc_count'] = jnp.sum(moves['acc'] & ~moves['grow'])
    bart['leaf_indices'] = apply_moves_to_leaf_indices(bart['leaf_indices'], moves)
    bart['split_trees'] = apply_moves_to_split_trees(bart['split_trees'], moves)
    return bart
""", """    acc, grow = moves['acc'], moves['grow']
    return dict(
        bart,
        split_trees=apply_moves_to_split_trees(bart['split_trees'], moves),
        leaf_indices=apply_moves_to_leaf_indices(bart['leaf_indices'], moves),
        prune_acc_count=jnp.count_nonzero(acc & ~grow),
        grow_acc_count=jnp.count_nonzero(acc & grow),
    )
"""),
]

SETS['grove'] = [
    (GR, """    def loop(carry, _):
        leaf_found, index = carry

        split = split_tree[index]
        var = var_tree[index]

        leaf_found |= split == 0
        child_index = (index << 1) + (x[var] >= split)
        index = jnp.where(leaf_found, index, child_index)

        return (leaf_found, index), None

    depth = tree_depth(var_tree)
    (_, index), _ = lax.scan(loop, carry, None, depth, unroll=16)
    return index
""", """    leaf_found, index = carry
    for _ in range(tree_depth(var_tree)):
        split = split_tree[index]
        leaf_found = leaf_found | (split == 0)
        go_right = x[var_tree[index]] >= split
        child_index = 2 * index + go_right.astype(index.dtype)
        index = jnp.where(leaf_found, index, child_index)
    return index
"""),
    (GR, """    parent_index = index >> 1
    parent_nonleaf = split_tree[parent_index].astype(bool)
    parent_nonleaf = parent_nonleaf.at[1].set(True)
    return is_leaf & parent_nonleaf
""", """    parent_nonleaf = split_tree[index // 2] != 0
    return is_leaf & (parent_nonleaf | (index == 1))
"""),
    (GR, """    left_leaf = split_tree.at[left_index].get(mode='fill', fill_value=0) == 0
    right_leaf = split_tree.at[right_index].get(mode='fill', fill_value=0) == 0
    is_not_leaf = split_tree.astype(bool)
    return is_not_leaf & left_leaf & right_leaf
""", """    def is_leaf(index):
        return split_tree.at[index].get(mode='fill', fill_value=0) == 0
    return (split_tree != 0) & is_leaf(right_index) & is_leaf(left_index)
"""),
    (GR, """    depths = []
    depth = 0
    for i in range(tree_length):
        if i == 2 ** depth:
            depth += 1
        depths.append(depth - 1)
    depths[0] = 0
    return""", """    depths = [max(0, i.bit_length() - 1) for i in range(tree_length)]
    return"""),
    (GR, """    return int(round(math.log2(tree.shape[-1])))
""", """    size = tree.shape[-1]
    return size.bit_length() - 1
"""),
    (GR, """    leaves = leaf_trees[tree_index[:, None], indices]
    if sum_trees:
        return jnp.sum(leaves, axis=0, dtype=dtype)
            # this sum suggests to swap the vmaps, but I think it's better for X
            # copying to keep it that way
    else:
        return leaves
""", """    leaves = jnp.take_along_axis(leaf_trees, indices, axis=1)
    if not sum_trees:
        return leaves
    return leaves.sum(axis=0, dtype=dtype)
"""),
    (DBG, """    is_leaf = grove.is_actual_leaf(split_tree, add_bottom_level=True)
    depth = grove.tree_depths(is_leaf.size)
    depth = jnp.where(is_leaf, depth, 0)
    return jnp.max(depth)
""", """    leaves = grove.is_actual_leaf(split_tree, add_bottom_level=True)
    return jnp.max(grove.tree_depths(leaves.size) * leaves)
"""),
    (DBG, """    distr = jnp.zeros(X.shape[1] + 1, int)
    trees = bart['var_trees'], bart['split_trees']
    def loop(distr, tree):
        return distr + points_per_leaf_distr(*tree, X), None
    distr, _ = lax.scan(loop, distr, trees)
    return distr
""", """    distr = jax.vmap(points_per_leaf_distr, in_axes=(0, 0, None))
    return distr(bart['var_trees'], bart['split_trees'], X).sum(axis=0)
"""),
    (DBG, """    is_not_leaf = split_tree.at[index].get(mode='fill', fill_value=0) != 0
    parent_is_leaf = split_tree[parent_index] == 0
    stray = is_not_leaf & parent_is_leaf
    stray = stray.at[1].set(False)
    return ~jnp.any(stray)
""", """    is_decision = split_tree.at[index].get(mode='fill', fill_value=0) != 0
    parent_is_decision = (split_tree[parent_index] != 0).at[1].set(True)
    return jnp.all(parent_is_decision | ~is_decision)
"""),
    (DBG, """    error_type = jaxext.minimal_unsigned_dtype(2 ** len(check_functions) - 1)
    error = error_type(0)
    for i, func in enumerate(check_functions):
        ok = func(leaf_tree, var_tree, split_tree, max_split)
        ok = jnp.bool_(ok)
        bit = (~ok) << i
        error |= bit
    return error
""", """    error_type = jaxext.minimal_unsigned_dtype(2 ** len(check_functions) - 1)
    args = leaf_tree, var_tree, split_tree, max_split
    bad = [~jnp.bool_(func(*args)) for func in check_functions]
    error = error_type(0)
    for i, b in enumerate(bad):
        error |= jnp.where(b, 1 << i, 0).astype(error_type)
    return error
"""),
    (DBG, """    return [
        func.__name__
        for i, func in enumerate(check_functions)
        if error & (1 << i)
    ]
""", """    names = []
    for func in check_functions:
        if error % 2:
            names.append(func.__name__)
        error = error // 2
    return names
"""),
]

SETS['prep'] = [
    (JX, """    x = jnp.sort(x)
    def loop(carry, x):
        i_out, i_in, last, out = carry
        i_out = jnp.where(x == last, i_out, i_out + 1)
        out = out.at[i_out].set(x)
        return (i_out, i_in + 1, x, out), None
    carry = 0, 0, x[0], jnp.full(size, fill_value, x.dtype)
    (actual_length, _, _, out), _ = jax.lax.scan(loop, carry, x)
    return out, jnp.minimum(actual_length + 1, size)
""", """    x = jnp.sort(x)
    new = jnp.concatenate([jnp.zeros(1, bool), x[1:] != x[:-1]])
    position = jnp.cumsum(new)
    out = jnp.full(size, fill_value, x.dtype).at[position].set(x, mode='drop')
    return out, jnp.minimum(position[-1] + 1, size)
"""),
    (JX, """    if max_value < 2 ** 8:
        return jnp.uint8
    if max_value < 2 ** 16:
        return jnp.uint16
    if max_value < 2 ** 32:
        return jnp.uint32
    return jnp.uint64
""", """    for dtype in (jnp.uint8, jnp.uint16, jnp.uint32):
        if max_value <= jnp.iinfo(dtype).max:
            return dtype
    return jnp.uint64
"""),
    (JX, """        min_nbatches = total_nbytes // max_io_nbytes + bool(total_nbytes % max_io_nbytes)
        min_nbatches = max(1, min_nbatches)
""", """        quotient, remainder = divmod(total_nbytes, max_io_nbytes)
        min_nbatches = quotient + 1 if remainder else quotient
        if min_nbatches < 1:
            min_nbatches = 1
"""),
    (JX, """        def nbytes(x):
            return math.prod(x.shape) * x.dtype.itemsize
        return tree_util.tree_reduce(lambda size, x: size + nbytes(x), tree, 0)
""", """        total = 0
        for x in tree_util.tree_leaves(tree):
            nbytes = x.dtype.itemsize
            for length in x.shape:
                nbytes *= length
            total += nbytes
        return total
"""),
    (JX, """        max_inv_divisor = dividend // min_divisor
        for inv_divisor in range(max_inv_divisor, 0, -1):
            if dividend % inv_divisor == 0:
                return dividend // inv_divisor
        return dividend
""", """        inv_divisor = dividend // min_divisor
        while inv_divisor > 1:
            if dividend % inv_divisor == 0:
                return dividend // inv_divisor
            inv_divisor -= 1
        return dividend
"""),
    (PC, """    decimated_midpoints = midpoints[indices]
    truncated_midpoints = midpoints[:out_length]
    splits = jnp.where(actual_length > out_length, decimated_midpoints, truncated_midpoints)
    max_split = jnp.minimum(actual_length, out_length)
""", """    too_many = actual_length > out_length
    splits = jnp.where(too_many, midpoints[indices], midpoints[:out_length])
    max_split = jnp.where(too_many, out_length, actual_length)
"""),
    (PC, """    low = jnp.min(X, axis=1)
    high = jnp.max(X, axis=1)
""", """    low, high = X.min(axis=1), X.max(axis=1)
"""),
]

SETS['interface'] = [
    (LOOP, """        key, subkey = random.split(key)
        bart = mcmcstep.step(bart, subkey)
        callback(bart=bart, burnin=burnin, i_total=i_total, i_skip=i_skip, **callback_kw)
        output = {key: bart[key] for key in tracelist if key in bart}
        return (bart, i_total + 1, i_skip + 1, key), output
""", """        keys = random.split(key, 2)
        bart = mcmcstep.step(bart, keys[1])
        callback(**callback_kw, i_skip=i_skip, i_total=i_total, burnin=burnin, bart=bart)
        output = {}
        for field in tracelist:
            if field in bart:
                output[field] = bart[field]
        return (bart, i_total + 1, i_skip + 1, keys[0]), output
"""),
    (LOOP, """    def loop(_, state):
        values = evaluate_trees(X, state['leaf_trees'], state['var_trees'], state['split_trees'])
        return None, jnp.sum(values, axis=0, dtype=jnp.float32)
    _, y = lax.scan(loop, None, trace)
    return y
""", """    def evaluate(trees):
        leaf_trees, var_trees, split_trees = trees
        values = evaluate_trees(X, leaf_trees, var_trees, split_trees)
        return values.astype(jnp.float32).sum(axis=0)
    return lax.map(evaluate, (trace['leaf_trees'], trace['var_trees'], trace['split_trees']))
"""),
    (LOOP, """    if printcond:
        burnin_flag = ' (burnin)' if burnin else ''
        total_str = str(n_total)
        ndigits = len(total_str)
        i_str = str(i_total + 1).rjust(ndigits)
        print(f'Iteration {i_str}/{total_str} '
            f'P_grow={grow_prop:.2f} P_prune={prune_prop:.2f} '
            f'A_grow={grow_acc:.2f} A_prune={prune_acc:.2f}{burnin_flag}')
""", """    if not printcond:
        return
    ndigits = len(str(n_total))
    parts = [
        f'Iteration {str(1 + i_total).rjust(ndigits)}/{n_total}',
        f'P_grow={grow_prop:.2f}',
        f'P_prune={prune_prop:.2f}',
        f'A_grow={grow_acc:.2f}',
        f'A_prune={prune_acc:.2f}',
    ]
    if burnin:
        parts.append('(burnin)')
    print(' '.join(parts))
"""),
    (BA, """        offset = self._process_offset_settings(y_train, offset)
        scale = self._process_scale_settings(y_train, k)
        lamda, sigest""", """        scale = self._process_scale_settings(y_train, k)
        offset = self._process_offset_settings(y_train, offset)
        lamda, sigest"""),
    (BA, """        return (y - offset) / scale

    @staticmethod
    def _setup""", """        centered = y - offset
        return centered / scale

    @staticmethod
    def _setup"""),
    (BA, """        return offset + scale * y

""", """        return y * scale + offset

"""),
    (BA, """        return scale * jnp.sqrt(trace['sigma2'])

""", """        sigma = jnp.sqrt(trace['sigma2'])
        return sigma * scale

"""),
    (BA, """            return (y_train.max() - y_train.min()) / (2 * k)
""", """            half_range = (jnp.max(y_train) - jnp.min(y_train)) / 2
            return half_range / k
"""),
    (BA, """        depth = jnp.arange(maxdepth - 1)
        p_nonterminal = base / (1 + depth).astype(float) ** power
        sigma2_alpha = sigdf / 2
        sigma2_beta = lamda * sigma2_alpha
""", """        level = jnp.arange(1, maxdepth, dtype=float)
        p_nonterminal = base * level ** -float(power)
        sigma2_alpha = sigdf / 2
        sigma2_beta = lamda * sigdf / 2
"""),
    (BA, """            invchi2 = jaxext.scipy.stats.invgamma.ppf(sigquant, alpha) / 2
            invchi2rid = invchi2 * sigdf
            return sigest2 / invchi2rid, jnp.sqrt(sigest2)
""", """            invchi2 = jaxext.scipy.stats.invgamma.ppf(sigquant, alpha)
            lamda = 2 * sigest2 / (sigdf * invchi2)
            return lamda, jnp.sqrt(sigest2)
"""),
    (BA, """        x_train = self._mcmc_state['X']
        yhat_train = self._predict(self._main_trace, x_train)
        return self._transform_output(yhat_train, self.offset, self.scale)
""", """        latent = self._predict(self._main_trace, self._mcmc_state['X'])
        return self._transform_output(latent, offset=self.offset, scale=self.scale)
"""),
    (MS, """    bart = dict(
        leaf_trees=make_forest(max_depth, small_float),
        var_trees=make_forest(max_depth - 1, jaxext.minimal_unsigned_dtype(X.shape[0] - 1)),
        split_trees=make_forest(max_depth - 1, max_split.dtype),
""", """    p, n = X.shape
    half_size = 2 ** (max_depth - 1)
    bart = dict(
        leaf_trees=jnp.zeros((num_trees, 2 * half_size), small_float),
        var_trees=jnp.zeros((num_trees, half_size), jaxext.minimal_unsigned_dtype(p - 1)),
        split_trees=jnp.zeros((num_trees, half_size), max_split.dtype),
"""),
]


def main(argv):
    sets, checks = (argv[:argv.index('--')], argv[argv.index('--') + 1:]) if '--' in argv else (argv, [])
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    checks = checks or sorted(f[:-3].upper() for f in os.listdir(root + '/checks') if f[0] == 'c' and f[1:3].isdigit())
    bad = 0
    for name in sets or SETS:
        d = tempfile.mkdtemp(prefix='refactor', dir='/tmp')
        try:
            shutil.copytree('/repo/src', d + '/src')
            for f, old, new in SETS[name]:
                p = f'{d}/src/bartz/{f}'
                s = open(p).read()
                assert s.count(old) == 1, (name, f, s.count(old), old)
                open(p, 'w').write(s.replace(old, new))
            if checks == ['none']:
                continue
            for c in checks:
                r = subprocess.run([sys.executable, root + '/check.py', c], capture_output=True, text=True,
                                   env=dict(os.environ, PYTHONPATH=d + '/src', BARTZ_SRC=d + '/src'))
                bad += r.returncode != 0
                last = [l for l in (r.stdout + r.stderr).splitlines() if 'ERROR' in l or 'VIOL' in l or '   ' in l[10:20]][:6] if r.returncode else []
                print(name, c, r.returncode, r.stdout.splitlines()[-1:], *[l[:300] for l in last], sep='\n   ' if last else ' ', flush=True)
        finally:
            shutil.rmtree(d)
    return bad


if __name__ == '__main__':
    sys.exit(bool(main(sys.argv[1:])))
