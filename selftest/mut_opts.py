import sys
from lib import batch
F = 'config.py'
INIT_NS = "        if self.config1.device == self.config2.device:\n            return True\n"
CASES = [
 ('compat: or', 'C15', [(F, "return self.namespaces_compatible and self.models_compatible", "return self.namespaces_compatible or self.models_compatible")]),
 ('compat: only models', 'C15', [(F, "return self.namespaces_compatible and self.models_compatible", "return self.models_compatible")]),
 ('compat: same device shortcut', 'C15', [(F, "        check_models(self.models)\n        for model in self.models:\n            diff", "        if self.config1.device == self.config2.device:\n            return True\n        check_models(self.models)\n        for model in self.models:\n            diff")]),
 ('compat: one device checked', 'C15', [(F, "            for device in [self.config1.device, self.config2.device]:\n                missing_models = set(models) - set(device.models_loaded)", "            for device in [self.config1.device]:\n                missing_models = set(models) - set(device.models_loaded)")]),
 ('compat: set diff inverted', 'C15', [(F, "set(models) - set(device.models_loaded)", "set(device.models_loaded) - set(models)")]),
 ('compat: first model only', 'C15', [(F, "        for model in self.models:\n            diff", "        for model in self.models[:1]:\n            diff")]),
 ('compat: first model only 2', 'C15', [(F, "                    .format(model, self.config1.device, self.config2.device))\n        return True", "                    .format(model, self.config1.device, self.config2.device))\n            return True\n        return True")]),
 ('compat: models of first', 'C15', [(F, "return sorted(list(set(self.config1.models + self.config2.models)))", "return sorted(list(set(self.config1.models)))")]),
 ('compat: intersection', 'C15', [(F, "return sorted(list(set(self.config1.models + self.config2.models)))", "return sorted(list(set(self.config1.models) & set(self.config2.models)))")]),
 ('compat: self diff', 'C15', [(F, "            diff = ModelDiff(self.config1.device.models[model],\n                             self.config2.device.models[model])", "            diff = ModelDiff(self.config1.device.models[model],\n                             self.config1.device.models[model])")]),
 ('compat: no url', 'C15', [(F, "            if url1 != url2:", "            if url1 != url2 and prefix1 is None:")]),
 ('compat: url by prefix', 'C15', [(F, "            url2 = [i[2] for i in self.config2.device.namespaces", "            url2 = [i[2] for i in self.config1.device.namespaces")]),
 ('compat: prefix twice', 'C15', [(F, "            url1 = [i[2]", "            url1 = [i[1]"), (F, "            url2 = [i[2]", "            url2 = [i[1]")]),
 ('compat: warn', 'C15', [(F, "                raise ModelIncompatible(\"model '{}' uses prefix '{}' on \"", "                logger.warning(\"model '{}' uses prefix '{}' on \"")]),
 ('compat: add no check delta', 'C15', [(F, "            if ConfigCompatibility(self, other).is_compatible:\n                return Config(self.device,\n                              NetconfCalculator(self.device,\n                                                self.ele, other.nc).add, False)", "            return Config(self.device,\n                              NetconfCalculator(self.device,\n                                                self.ele, other.nc).add, False)")]),
 ('compat: add self self', 'C15', [(F, "            if ConfigCompatibility(self, other).is_compatible:\n                return Config(\n", "            if ConfigCompatibility(self, self).is_compatible:\n                return Config(\n")]),
 ('compat: delta no check', 'C15', [(F, "            ConfigCompatibility(self.config_src, self.config_dst).is_compatible\n", "            pass\n")]),
 ('compat: delta unevaluated', 'C15', [(F, "            ConfigCompatibility(self.config_src, self.config_dst).is_compatible\n", "            ConfigCompatibility(self.config_src, self.config_dst)\n")]),
 ('compat: delta cond', 'C15', [(F, "        else:\n            ConfigCompatibility(self.config_src, self.config_dst).is_compatible\n", "        elif self.config_src.device is not self.config_dst.device:\n            ConfigCompatibility(self.config_src, self.config_dst).is_compatible\n")]),
 ('opts: create set', 'C27', [(F, "if preferred_create in ['merge', 'create', 'replace']:", "if preferred_create in ['merge', 'create', 'replace', 'delete']:")]),
 ('opts: create narrower', 'C27', [(F, "if preferred_create in ['merge', 'create', 'replace']:", "if preferred_create in ['merge', 'create']:")]),
 ('opts: delete set', 'C27', [(F, "if preferred_delete in ['delete', 'remove']:", "if preferred_delete in 'delete remove':")]),
 ('opts: depth', 'C27', [(F, "isinstance(random_depth, int) and random_depth >= 0", "isinstance(random_depth, int)")]),
 ('opts: depth >0', 'C27', [(F, "isinstance(random_depth, int) and random_depth >= 0", "isinstance(random_depth, int) and random_depth > 0")]),
 ('opts: seed zero', 'C27', [(F, "            if value is None:\n                self._random_seed = random", "            if not value:\n                self._random_seed = random")]),
 ('opts: seed unchecked', 'C27', [(F, "        if value is not None and not isinstance(value, int):", "        if value is not None and not value:")]),
 ('nc: swapped', 'C27', [(F, "            self.config_dst.ele, self.config_src.ele,", "            self.config_src.ele, self.config_dst.ele,")]),
 ('nc: drop replace', 'C27', [(F, "            preferred_replace=self.preferred_replace,\n", "")]),
 ('nc: xchg', 'C27', [(F, "            preferred_delete=self.preferred_delete,\n", "            preferred_delete=self.preferred_create,\n")]),
 ('nc: depth 0', 'C27', [(F, "        if self.random_depth is not None and self.random_seed is not None:", "        if self.random_depth and self.random_seed is not None:")]),
 ('nc: cur 1', 'C27', [(F, "self.reorder(delta, self.random_seed, self.random_depth, 0)", "self.reorder(delta, self.random_seed, self.random_depth, 1)")]),
 ('neg: identity', 'C27', [(F, "        return ConfigDelta(config_src=self.config_dst,\n                           config_dst=self.config_src)", "        return ConfigDelta(config_src=self.config_src,\n                           config_dst=self.config_dst)")]),
 ('sub: swapped', 'C27', [(F, "return ConfigDelta(config_src=other, config_dst=self)", "return ConfigDelta(config_src=self, config_dst=other)")]),
 ('sub: no neg', 'C27', [(F, "return self.__add__(-other)", "return self.__add__(other)")]),
 ('add: None', 'C27', [(F, "            return other + self.nc\n        else:\n            return NotImplemented", "            return other + self.nc")]),
 ('add: ignores delta dst', 'C27', [(F, "            self.config_dst = self.config_src + delta\n", "            self.config_dst = self.config_dst or self.config_src + delta\n")]),
 ('reorder: seed', 'C27', [(F, "            random.seed(seed)\n", "")]),
 ('reorder: seed const', 'C27', [(F, "            random.seed(seed)\n", "            random.seed()\n")]),
 ('reorder: keys', 'C27', [(F, "                num_keys += 1\n            else:\n                break", "                continue\n            else:\n                break")]),
 ('reorder: lost', 'C27', [(F, "                range(num_keys, length), length - num_keys)", "                range(num_keys, length), length - num_keys - 1)")]),
 ('reorder: depth', 'C27', [(F, "self.reorder(child, seed, depth, current_depth + 1)", "self.reorder(child, seed, depth - 1, current_depth)")]),
 ('reorder: ge', 'C27', [(F, "        if current_depth == depth:", "        if current_depth >= depth - 1:")]),
 ('reorder: first child', 'C27', [(F, "                self.reorder(child, seed, depth, current_depth + 1)", "                self.reorder(child, seed, depth, current_depth + 1)\n                break")]),
 # refactors
 ('R: compat helper', '-', [(F, "            diff = ModelDiff(self.config1.device.models[model],\n                             self.config2.device.models[model])\n            if diff:", "            device1 = self.config1.device\n            device2 = self.config2.device\n            if ModelDiff(device1.models[model], device2.models[model]):")]),
 ('R: compat ns helper', '-', [(F, """            prefix1 = [i[1] for i in self.config1.device.namespaces
                       if i[0] == model][0]
            prefix2 = [i[1] for i in self.config2.device.namespaces
                       if i[0] == model][0]""", """            prefix1 = self._lookup(self.config1, model, 1)
            prefix2 = self._lookup(self.config2, model, 1)"""), (F, "    @property\n    def is_compatible(self):", "    def _lookup(self, config, model, index):\n        return [i[index] for i in config.device.namespaces\n                if i[0] == model][0]\n\n    @property\n    def is_compatible(self):")]),
 ('R: compat ns dict', '-', [(F, """            prefix1 = [i[1] for i in self.config1.device.namespaces
                       if i[0] == model][0]
            prefix2 = [i[1] for i in self.config2.device.namespaces
                       if i[0] == model][0]""", """            prefix1 = {i[0]: i[1] for i in self.config1.device.namespaces}[model]
            prefix2 = {i[0]: i[1] for i in self.config2.device.namespaces}[model]""")]),
 ('R: compat ns next', '-', [(F, """            prefix1 = [i[1] for i in self.config1.device.namespaces
                       if i[0] == model][0]
            prefix2 = [i[1] for i in self.config2.device.namespaces
                       if i[0] == model][0]""", """            prefix1 = next(i[1] for i in self.config1.device.namespaces
                           if i[0] == model)
            prefix2 = next(i[1] for i in self.config2.device.namespaces
                           if i[0] == model)""")]),
 ('R: compat missing comp', '-', [(F, "                missing_models = set(models) - set(device.models_loaded)\n", "                loaded = device.models_loaded\n                missing_models = [m for m in models if m not in loaded]\n")]),
 ('R: compat missing diff', '-', [(F, "                missing_models = set(models) - set(device.models_loaded)\n", "                missing_models = set(models).difference(device.models_loaded)\n")]),
 ('R: compat models', '-', [(F, "return sorted(list(set(self.config1.models + self.config2.models)))", "return sorted(set(self.config1.models) | set(self.config2.models))")]),
 ('R: config models', '-', [(F, "return sorted(list(set([v for k, v in self.roots.items()])))", "return sorted(set(self.roots.values()))")]),
 ('R: add merged', '-', [(F, """        if isinstance(other, Config):
            if ConfigCompatibility(self, other).is_compatible:
                return Config(
                    self.device,
                    NetconfCalculator(self.device, self.ele, other.ele).add,
                    False,
                )
        elif isinstance(other, ConfigDelta):
            if ConfigCompatibility(self, other).is_compatible:
                return Config(self.device,
                              NetconfCalculator(self.device,
                                                self.ele, other.nc).add, False)
""", """        if isinstance(other, (Config, ConfigDelta)):
            compatible = ConfigCompatibility(self, other).is_compatible
            if compatible:
                edit = other.ele if isinstance(other, Config) else other.nc
                calculator = NetconfCalculator(self.device, self.ele, edit)
                return Config(self.device, calculator.add, validate=False)
""")]),
 ('R: init order', '-', [(F, "        self.config_dst = config_dst\n        if self.config_dst is None and delta is None:\n            self.config_dst = self.config_src\n        if delta is not None:\n            if self.config_dst is not None:", "        if config_dst is None and delta is None:\n            self.config_dst = config_src\n        else:\n            self.config_dst = config_dst\n        if delta is not None:\n            if self.config_dst is not None:")]),
 ('R: init sets', '-', [(F, "        if preferred_create in ['merge', 'create', 'replace']:\n            self.preferred_create = preferred_create\n        else:\n            raise ValueError(", "        self.preferred_create = preferred_create\n        if preferred_create not in ('merge', 'create', 'replace'):\n            raise ValueError(")]),
 ('R: nc options', '-', [(F, """            preferred_create=self.preferred_create,
            preferred_replace=self.preferred_replace,
            preferred_delete=self.preferred_delete,
            diff_type=self.diff_type,
            replace_depth=self.replace_depth,
            replace_xpath=self.replace_xpath,
        ).sub
        if self.random_depth is not None and self.random_seed is not None:
            self.reorder(delta, self.random_seed, self.random_depth, 0)
        return delta""", """            preferred_create=self.preferred_create,
            preferred_replace=self.preferred_replace,
            preferred_delete=self.preferred_delete,
            diff_type=self.diff_type,
            replace_depth=self.replace_depth,
            replace_xpath=self.replace_xpath,
        ).sub
        if self.random_depth is None or self.random_seed is None:
            return delta
        self.reorder(delta, self.random_seed, self.random_depth, 0)
        return delta""")]),
 ('R: nc kwargs', '-', [(F, """        delta = NetconfCalculator(
            self.device,
            self.config_dst.ele, self.config_src.ele,
            preferred_create=self.preferred_create,
            preferred_replace=self.preferred_replace,
            preferred_delete=self.preferred_delete,
            diff_type=self.diff_type,
            replace_depth=self.replace_depth,
            replace_xpath=self.replace_xpath,
        ).sub""", """        names = ('preferred_create', 'preferred_replace', 'preferred_delete',
                 'diff_type', 'replace_depth', 'replace_xpath')
        options = {name: getattr(self, name) for name in names}
        calculator = NetconfCalculator(self.device, self.config_dst.ele,
                                       self.config_src.ele, **options)
        delta = calculator.sub""")]),
 ('R: reorder loops', '-', [(F, "            [node.remove(buffer[i]) for i in reversed(old_sequence)]\n            [node.append(buffer[i]) for i in new_sequence]", "            for i in reversed(old_sequence):\n                node.remove(buffer[i])\n            for i in new_sequence:\n                node.append(buffer[i])")]),
 ('R: reorder list', '-', [(F, "        buffer = {i: j for i, j in enumerate(node)}", "        buffer = list(node)")]),
 ('R: reorder enumerate', '-', [(F, "        for i in range(length):\n            schema_node = self.device.get_schema_node(buffer[i])\n            if schema_node.get('is_key') == \"true\":\n                num_keys += 1\n            else:\n                break", "        for child in node:\n            schema_node = self.device.get_schema_node(child)\n            if schema_node.get('is_key') != \"true\":\n                break\n            num_keys += 1")]),
 ('R: reorder early', '-', [(F, "            self.reorder_children(node, seed)\n        else:\n            for child in node:\n                self.reorder(child, seed, depth, current_depth + 1)", "            self.reorder_children(node, seed)\n            return\n        next_depth = current_depth + 1\n        for child in node:\n            self.reorder(child, seed, depth, next_depth)")]),
 ('R: neg', '-', [(F, "        return ConfigDelta(config_src=self.config_dst,\n                           config_dst=self.config_src)", "        return type(self)(self.config_dst, self.config_src)")]),
 ('R: sub binop', '-', [(F, "return self.__add__(-other)", "return self + (-other)")]),
]
if __name__ == '__main__':
    sys.exit(batch(CASES, (sys.argv[1] if len(sys.argv) > 1 else 'C15,C27').split(',')))
