C = 'structure/construction.py'
A = 'structure/architecture.py'
LS = 'layers/lstm_layer.py'
CV = 'layers/convolution_layer_2d.py'
RS = "        self.layer.outgoing.append((self.output_name, other.input_name, other.layer))\n        other.layer.incoming.append((self.layer, self.output_name, other.input_name))\n"
GD = "        if outp in outgoing:\n            outgoing[outp].append('{}.{}'.format(end_layer.name, inp))\n        else:\n            outgoing[outp] = ['{}.{}'.format(end_layer.name, inp)]\n"
CL = "            for l in new_layers:\n                very_new_layers |= {o[2] for o in l.outgoing}\n                very_new_layers |= {i[0] for i in l.incoming}\n            connectom |= new_layers\n            new_layers = very_new_layers - connectom\n"
CASES = [
    ('swap', 'bad', [(C, "((self.output_name, other.input_name, other.layer))", "((self.output_name, self.input_name, other.layer))")]),
    ('once', 'bad', [(C, RS, "        con = (self.output_name, other.input_name, other.layer)\n        if con not in self.layer.outgoing:\n            self.layer.outgoing.append(con)\n        other.layer.incoming.append((self.layer, self.output_name, other.output_name))\n")]),
    ('no-incoming', 'bad', [(C, "        other.layer.incoming.append((self.layer, self.output_name, other.input_name))\n", "")]),
    ('no-scope', 'bad', [(C, "        self.layer.merge_scopes(other.layer)\n", "")]),
    ('scope-self', 'bad', [(C, "self.layer.merge_scopes(other.layer)", "self.layer.merge_scopes(self.layer)")]),
    ('ret-self', 'bad', [(C, "        return other\n", "        return self\n")]),
    ('sub-drops-input', 'bad', [(C, "ConstructionWrapper(self.layer, output_name=other, input_name=self.input_name)", "ConstructionWrapper(self.layer, output_name=other)")]),
    ('rsub-mutates', 'bad', [(C, "        return ConstructionWrapper(self.layer, input_name=other, output_name=self.output_name)", "        self.input_name = other\n        return self")]),
    ('replace', 'bad', [(A, GD, "        outgoing[outp] = ['{}.{}'.format(end_layer.name, inp)]\n")]),
    ('input-key', 'bad', [(A, GD, "        outgoing.setdefault(inp, []).append('{}.{}'.format(end_layer.name, outp))\n")]),
    ('no-kwargs', 'bad', [(A, "    if layer_details.layer_kwargs:\n        description.update(layer_details.layer_kwargs)\n", "")]),
    ('type', 'bad', [(A, "'@type': layer_details.layer_type", "'@type': layer_details.name")]),
    ('skip-default', 'bad', [(A, "    for outp, inp, end_layer in layer_details.outgoing:\n", "    for outp, inp, end_layer in layer_details.outgoing:\n        if end_layer.name + inp in outgoing:\n            continue\n        if outp.startswith('..'):\n            continue\n")]),
    ('first-seen', 'bad', [(A, GD, "        target = '{}.{}'.format(end_layer.name, inp)\n        if outp not in outgoing:\n            outgoing[outp] = [target]\n        elif end_layer.name not in outgoing:\n            outgoing[outp] = [target]\n")]),
    ('arch-type', 'bad', [(A, "arch = {layer.name: get_layer_description(layer) for layer in layers}", "arch = {layer.layer_type: get_layer_description(layer) for layer in layers}")]),
    ('arch-wrong', 'bad', [(A, "get_layer_description(layer) for layer in layers}", "get_layer_description(some_layer) for layer in layers}")]),
    ('one-way', 'bad', [(C, "                very_new_layers |= {i[0] for i in l.incoming}\n", "")]),
    ('one-step', 'bad', [(C, "        connectom = set()\n        new_layers = {self}\n        while new_layers:\n            very_new_layers = set()\n" + CL + "        return connectom\n", "        return {self} | {o[2] for o in self.outgoing} | {i[0] for i in self.incoming}\n")]),
    ('wrong-pos', 'bad', [(C, "{i[0] for i in l.incoming}", "{i[2] for i in l.incoming}")]),
    ('merge-lose', 'bad', [(C, "sorted(set(self.scope[name] + scoped_names), key", "sorted(set(scoped_names), key")]),
    ('merge-dup', 'bad', [(C, "sorted(set(self.scope[name] + scoped_names), key", "sorted(self.scope[name] + scoped_names, key")]),
    ('merge-unsorted', 'bad', [(C, "sorted(set(self.scope[name] + scoped_names), key=lambda x: x.creation_id)", "list(set(self.scope[name] + scoped_names))")]),
    ('merge-skip', 'bad', [(C, "            if name not in self.scope:\n                new_scope[name] = []\n", "            if name not in self.scope:\n                new_scope[name] = []\n                continue\n")]),
    ('scope-one', 'bad', [(C, "        for n in new_scope:\n            for sn in new_scope[n]:\n                sn.scope = new_scope\n", "        other.scope = new_scope\n")]),
    ('counter', 'bad', [(C, "        UniquelyNamed.global_counter += 1\n", "")]),
    ('name-while', 'bad', [(C, "            while name in self.scope and len(self.scope[name]) == 1:\n                i += 1\n                name = '{}_{}'.format(self._basename, i)\n", "")]),
    ('name-inc', 'bad', [(C, "                return name\n            i += 1\n", "                return name\n")]),
    ('name-plain', 'bad', [(C, "if len(self.scope[self._basename]) == 1:", "if len(self.scope[self._basename]) <= 2:")]),
    ('kwargs-lost', 'bad', [(C, "self.layer_kwargs = kwargs", "self.layer_kwargs = {k: v for k, v in kwargs.items() if v}")]),
    ('suffix', 'bad', [(C, "layer_type_name = layer_type_name[:-9]", "layer_type_name = layer_type_name[:-5]")]),
    ('shared-list', 'bad', [(C, "        self.outgoing = []\n", "        self.outgoing = self.incoming = kwargs.get('c', [None])\n")]),
    ('lstm-act', 'bad', [(LS, "size=size, name=name, activation=activation)", "size=size, name=name)")]),
    ('lstm-name', 'bad', [(LS, "size=size, name=name, activation=activation)", "size=size, activation=activation)")]),
    ('conv-swap', 'bad', [(CV, "stride=stride, padding=padding", "stride=padding, padding=stride")]),
    ('in-default', 'bad', [(A, "            if not input_name:\n                input_name = 'default'\n            outgoing.append(Connection(layer_name, 'default', end_layer, input_name))\n    else", "            outgoing.append(Connection(layer_name, 'default', end_layer, input_name))\n    else")]),
    ('out-name', 'bad', [(A, "outgoing.append(Connection(layer_name, out_name, end_layer, input_name))", "outgoing.append(Connection(layer_name, input_name, end_layer, out_name))")]),
    ('rpartition', 'bad', [(A, "end_layer, _, input_name = connection_string.partition('.')", "end_layer, _, input_name = connection_string.rpartition('.')")]),
    ('all-conns', 'bad', [(A, "all_connections.extend(collect", "all_connections = list(collect"), (A, "    return sorted(all_connections)", "    return sorted(all_connections)")]),
    ('kw-type', 'bad', [(A, "kwarg_ignore = {'@type', '@outgoing_connections'}", "kwarg_ignore = {'@type', '@outgoing_connections', 'type'}")]),
    ('inst-swap', 'bad', [(A, "LayerClass(layer_name, in_shapes, incoming, outgoing,", "LayerClass(layer_name, in_shapes, outgoing, incoming,")]),
    ('inst-shapes', 'bad', [(A, " for c in incoming if c.input_name == input_name]", " for c in incoming]")]),
    ('inst-out', 'bad', [(A, "get_normalized_path('outputs', c.output_name)", "get_normalized_path('outputs', c.input_name)")]),
    ('inst-kw', 'bad', [(A, ", **get_kwargs(layer))", ")")]),
    # refactorings
    ('r-setdefault', 'ok', [(A, GD, "        outgoing.setdefault(outp, []).append('{}.{}'.format(end_layer.name, inp))\n")]),
    ('r-notin', 'ok', [(A, GD, "        if outp not in outgoing:\n            outgoing[outp] = []\n        outgoing[outp].append('%s.%s' % (end_layer.name, inp))\n")]),
    ('r-get', 'ok', [(A, GD, "        outgoing[outp] = outgoing.get(outp, []) + [end_layer.name + '.' + inp]\n")]),
    ('r-dd', 'ok', [(A, GD, "        outgoing[outp].append('.'.join([end_layer.name, inp]))\n"), (A, "    outgoing = {}\n    for outp", "    from collections import defaultdict\n    outgoing = defaultdict(list)\n    for outp")]),
    ('r-kw', 'ok', [(A, "    if layer_details.layer_kwargs:\n        description.update(layer_details.layer_kwargs)\n", "    for k, v in layer_details.layer_kwargs.items():\n        description[k] = v\n")]),
    ('r-kw2', 'ok', [(A, "    if layer_details.layer_kwargs:\n        description.update(layer_details.layer_kwargs)\n", "    description.update(layer_details.layer_kwargs)\n")]),
    ('r-arch', 'ok', [(A, "    arch = {layer.name: get_layer_description(layer) for layer in layers}\n    return arch", "    arch = {}\n    for layer in layers:\n        arch[layer.name] = get_layer_description(layer)\n    return arch")]),
    ('r-stack', 'ok', [(C, "        connectom = set()\n        new_layers = {self}\n        while new_layers:\n            very_new_layers = set()\n" + CL + "        return connectom\n", "        connectom = set()\n        stack = [self]\n        while stack:\n            l = stack.pop()\n            if l in connectom:\n                continue\n            connectom.add(l)\n            for _, _, end in l.outgoing:\n                stack.append(end)\n            for start, _, _ in l.incoming:\n                stack.append(start)\n        return connectom\n")]),
    ('r-merge', 'ok', [(C, "            if name not in self.scope:\n                new_scope[name] = []\n            new_scope[name] = sorted(set(self.scope[name] + scoped_names), key=lambda x: x.creation_id)\n", "            members = set(new_scope.get(name, [])) | set(scoped_names)\n            new_scope[name] = sorted(members, key=lambda x: x.creation_id)\n")]),
    ('r-merge2', 'ok', [(C, "        for n in new_scope:\n            for sn in new_scope[n]:\n                sn.scope = new_scope\n", "        for members in new_scope.values():\n            for sn in members:\n                sn.scope = new_scope\n")]),
    ('r-rshift', 'ok', [(C, RS, "        start, end = (self.layer, other.layer)\n        out_name, in_name = (self.output_name, other.input_name)\n        start.outgoing.append((out_name, in_name, end))\n        end.incoming.append((start, out_name, in_name))\n")]),
    ('r-name', 'ok', [(C, "        if len(self.scope[self._basename]) == 1:\n            return self._basename\n        i = 1\n        for un in self.scope[self._basename]:\n", "        members = self.scope[self._basename]\n        if len(members) < 2:\n            return self._basename\n        i = 1\n        for un in members:\n")]),
    ('r-name2', 'ok', [(C, "            name = '{}_{}'.format(self._basename, i)\n            while name in self.scope and len(self.scope[name]) == 1:\n                i += 1\n                name = '{}_{}'.format(self._basename, i)\n", "            name = self._numbered(i)\n            while name in self.scope and len(self.scope[name]) == 1:\n                i += 1\n                name = self._numbered(i)\n"), (C, "    @property\n    def name(self):", "    def _numbered(self, i):\n        return '{}_{}'.format(self._basename, i)\n\n    @property\n    def name(self):")]),
    ('r-collect', 'ok', [(A, "    outgoing = []\n    if isinstance(layer['@outgoing_connections'], (list, set, tuple)):\n        for con_str in layer['@outgoing_connections']:\n            end_layer, input_name = parse_connection(con_str)\n            if not input_name:\n                input_name = 'default'\n            outgoing.append(Connection(layer_name, 'default', end_layer, input_name))\n    else:\n        for out_name, out_con in layer['@outgoing_connections'].items():\n", "    outgoing = []\n    connections = layer['@outgoing_connections']\n    if isinstance(connections, (list, set, tuple)):\n        connections = {'default': connections}\n    if True:\n        for out_name, out_con in connections.items():\n")]),
    ('r-kwargs', 'ok', [(A, "    return {k: copy(v) for k, v in layer.items() if k not in kwarg_ignore}", "    kwargs = {k: copy(v) for k, v in layer.items() if not (k == '@type' or k == '@outgoing_connections')}\n    return kwargs")]),
    ('r-inst', 'ok', [(A, "        LayerClass = get_layer_class_from_typename(layer['@type'] + 'LayerImpl')\n", "        type_name = '%sLayerImpl' % layer['@type']\n        LayerClass = get_layer_class_from_typename(type_name)\n")]),
    ('r-inst2', 'ok', [(A, "        LayerClass = get_layer_class_from_typename(layer['@type'] + 'LayerImpl')\n        incoming = {c for c in connections if c.end_layer == layer_name}\n        outgoing = {c for c in connections if c.start_layer == layer_name}\n", "        LayerClass = get_layer_class_from_typename(layer['@type'] + 'LayerImpl')\n        outgoing = set([c for c in connections if c.start_layer == layer_name])\n        incoming = set([c for c in connections if c.end_layer == layer_name])\n")]),
    ('r-create', 'ok', [(C, "        layer_type_name = layer_type_name[:-9]\n", "        layer_type_name = layer_type_name[:-len('LayerImpl')]\n")]),
    ('r-lstm', 'ok', [(LS, "    return ConstructionWrapper.create(LstmLayerImpl, size=size, name=name, activation=activation)", "    options = dict(size=size, activation=activation)\n    return ConstructionWrapper.create(LstmLayerImpl, name=name, **options)")]),
    ('g-order', 'bad', [('structure/construction.py', "new_scope[name] = sorted(set(self.scope[name] + scoped_names), key=lambda x: x.creation_id)", "new_scope[name] = self.scope[name] + [s for s in scoped_names if s not in self.scope[name]]")]),
    ('g-incoming', 'bad', [('structure/construction.py', "very_new_layers |= {i[0] for i in l.incoming}", "very_new_layers |= {i[0] for i in l.incoming if i[2] == 'default'}")]),
    ('g-noname', 'bad', [('structure/architecture.py', "                input_name = 'default'\n", "                input_name = end_layer\n")]),
]
