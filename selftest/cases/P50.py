V = 'structure/view_references.py'
N = 'structure/network.py'
I = 'initializers.py'
H = 'handlers/base_handler.py'
NH = 'handlers/numpy_handler.py'
MULTI = "                if len(init) > 1:\n"
NONE = "                if len(init) == 0:\n"
CASES = [
    ('regex-noend', 'bad', [(V, "'^' + reference + '$'", "'^' + reference")]),
    ('regex-nostart-match', 'ok', [(V, "re.compile('^' + reference + '$')", "re.compile(reference + '$')")]),
    ('wild-dotstar', 'ok', [(V, "'[_a-zA-Z0-9]*'", "'[_a-zA-Z0-9]*?'")]),
    ('wild-one', 'bad', [(V, "'[_a-zA-Z0-9]*'", "'[_a-zA-Z0-9]'")]),
    ('wild-nodigits', 'bad', [(V, "'[_a-zA-Z0-9]*'", "'[_a-zA-Z]*'")]),
    ('default-all', 'bad', [(V, "            if not refs:\n                refs.add('default')", "            refs.add('default')")]),
    ('unmatched', 'bad', [(V, "if not matching_keys:", "if False:")]),
    ('unmatched-len', 'ok', [(V, "if not matching_keys:", "if len(matching_keys) == 0:")]),
    ('first-only', 'bad', [(V, "            for key in matching_keys:\n                key_to_reference[key].add(ref)" if 0 else "for key in matching_keys:", "for key in matching_keys[:1]:")]),
    ('fallback-matched', 'bad', [(V, "if ref in {'default', 'fallback'}:", "if ref in {'default'}:")]),
    ('special-tuple', 'ok', [(V, "if ref in {'default', 'fallback'}:", "if ref == 'default' or ref == 'fallback':")]),
    ('inherit-default', 'bad', [(V, "references.get('default', parent_default)", "references.get('default')")]),
    ('inherit-fallback', 'bad', [(V, "references.get('fallback', parent_fallback)", "references.get('fallback')")]),
    ('swap', 'bad', [(V, "references[ref], current_default, current_fallback)", "references[ref], current_fallback, current_default)")]),
    ('parent-passed', 'bad', [(V, "append_to_all_leaves(resolved[key], set(), current_default, current_fallback)", "append_to_all_leaves(resolved[key], set(), current_default, parent_fallback)")]),
    ('get-ifexp', 'ok', [(V, "current_default = references.get('default', parent_default)", "current_default = references['default'] if 'default' in references else parent_default")]),
    ('leaf-default-truth', 'bad', [(V, "if default is not None:", "if default:")]),
    ('leaf-fallback-defaults', 'bad', [(V, "add_or_update(structure.fallback, fallback)", "add_or_update(structure.defaults, fallback)")]),
    ('shared-node', 'bad', [(V, "return Node(OrderedSet(), OrderedSet(), OrderedSet())", "s = OrderedSet()\n        return Node(s, s, OrderedSet())")]),
    ('eval-both', 'bad', [(V, "return OrderedSet(structure.content)", "s = OrderedSet(structure.content)\n            s.update(structure.defaults)\n            return s")]),
    ('two-defaults', 'bad', [(V, "            assert len(structure.defaults) <= 1\n            return OrderedSet(structure.defaults)", "            return OrderedSet(list(structure.defaults)[:1])")]),
    ('fallbacks-content', 'bad', [(V, "return structure.fallback", "return structure.defaults")]),
    ('multi', 'bad', [(N, MULTI, "                if len(init) > 2:\n")]),
    ('multi-ge', 'ok', [(N, MULTI, "                if len(init) >= 2:\n")]),
    ('none-skipped', 'bad', [(N, NONE, "                if len(init) == 0:\n                    continue\n                if False:\n")]),
    ('none-not', 'ok', [(N, NONE, "                if not init:\n")]),
    ('fb-multi', 'bad', [(N, "                if len(fb) > 1:", "                if len(fb) > 2:")]),
    ('fb-dropped', 'bad', [(N, "evaluate_initializer(init.pop(), view.shape, fb, seed=init_rnd.generate_seed())", "evaluate_initializer(init.pop(), view.shape, seed=init_rnd.generate_seed())")]),
    ('fb-kw', 'ok', [(N, "evaluate_initializer(init.pop(), view.shape, fb, seed=init_rnd.generate_seed())", "evaluate_initializer(init.pop(), view.shape, fallback=fb, seed=init_rnd.generate_seed())")]),
    ('skip-layer', 'bad', [(N, "            if views is None:\n                continue\n            for view_name, view in sorted(views.items()):\n                init =", "            if views is None or len(views) < 2:\n                continue\n            for view_name, view in sorted(views.items()):\n                init =")]),
    ('wrong-view', 'bad', [(N, "init = initializers[layer_name][view_name]", "init = initializers[layer_name][sorted(views.keys())[0]]")]),
    ('kwargs-ignored', 'bad', [(N, "init_refs = _update_references_with_dict(default_or_init_dict, kwargs)\n        self.initializers", "init_refs = _update_references_with_dict(default_or_init_dict, {})\n        self.initializers")]),
    ('value-view', 'ok', [(N, "                self.handler.set_from_numpy(view, evaluate_initializer(init.pop(), view.shape, fb, seed=init_rnd.generate_seed()))", "                values = evaluate_initializer(init.pop(), view.shape, fb, seed=init_rnd.generate_seed())\n                self.handler.set_from_numpy(view, values)")]),
    ('conflict', 'bad', [(N, "if set(references.keys()) & set(ref_dict.keys()):", "if False:")]),
    ('conflict-any', 'ok', [(N, "if set(references.keys()) & set(ref_dict.keys()):", "if any([k in ref_dict for k in references]):")]),
    ('fb-any-exc', 'bad', [(I, "except InitializationError:", "except Exception:")]),
    ('fb-never', 'bad', [(I, "            if fallback is not None:\n                return evaluate_initializer(fallback, shape, seed=seed)\n            raise", "            raise")]),
    ('fb-noreturn', 'bad', [(I, "                return evaluate_initializer(fallback, shape, seed=seed)\n            raise", "                evaluate_initializer(fallback, shape, seed=seed)\n            raise")]),
    ('fb-as', 'ok', [(I, "            if fallback is not None:\n                return evaluate_initializer(fallback, shape, seed=seed)\n            raise", "            if fallback is None:\n                raise\n            return evaluate_initializer(fallback, shape, seed=seed)")]),
    ('gauss-shape', 'bad', [(I, "self.rnd.randn(*shape) * self.std + self.mean", "self.rnd.randn(*shape[1:]) * self.std + self.mean")]),
    ('gauss-normal', 'ok', [(I, "self.rnd.randn(*shape) * self.std + self.mean", "self.rnd.normal(self.mean, self.std, size=shape)")]),
    ('array-unchecked', 'bad', [(I, "        if not self.array.shape == shape:", "        if len(shape) != len(self.array.shape):")]),
    ('set-unchecked', 'bad', [(NH, "        assert mem.shape == arr.shape", "        assert mem.size >= arr.size" )]),
]
