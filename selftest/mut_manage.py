import sys
from lib import batch
F = 'manager.py'
KH = "    if \"hostkey_verify\" not in kwargs or kwargs[\"hostkey_verify\"]:\n        session.load_known_hosts()\n"
TRY = "    try:\n        session.connect(*args, **kwargs)\n    except Exception as ex:\n        if session.transport:\n            session.close()\n        raise\n"
OPTS = "        supported_args = ['timeout', 'async_mode' , 'raise_mode']\n        for arg in supported_args:\n            if arg in kwargs:\n                setattr(self, arg, kwargs[arg])\n"
NSLOOP = "            self._namespaces = []\n            for m in self.compiler.context.dependencies.findall('./module'):\n                if m.get('prefix') is not None:\n                    self._namespaces.append((\n                        m.get('id'),\n                        m.get('prefix'),\n                        m.findtext('namespace')\n                    ))\n"
CAPLOOP = "        modules = []\n        for capability in iter(self.server_capabilities):\n            match = re.search(regexp_str, capability)\n            if match:\n                modules.append(match.group(1))\n        self._models_loadable = sorted(modules)\n        return self._models_loadable\n"
MONIF = "        if [c for c in self.server_capabilities\n                if c[:len(NC_MONITORING)] == NC_MONITORING]:\n"
LIBIF = "        if [c for c in self.server_capabilities\n                if c[:len(YANG_LIB_1_0)] == YANG_LIB_1_0]:\n"
SCAN = "        if download in ['check', 'force']:\n            d = ModelDownloader(self, folder)\n            d.download_all(check_before_download=(download == 'check'))\n        self.compiler = ModelCompiler(folder)\n        self._namespaces = None\n"
ROOTS = "        roots = {}\n        for model in self.models.values():\n            roots.update({r: model.name for r in model.roots})\n        return roots\n"
CASES = [
 ('28: no hosts', 'C28', [(F, KH, "")]),
 ('28: hosts if given', 'C28', [(F, KH, "    if kwargs.get('hostkey_verify'):\n        session.load_known_hosts()\n")]),
 ('28: hosts late', 'C28', [(F, KH + "\n" + TRY, TRY + KH)]),
 ('28: swallow', 'C28', [(F, "            session.close()\n        raise\n", "            session.close()\n            raise\n")]),
 ('28: not closed', 'C28', [(F, TRY, "    session.connect(*args, **kwargs)\n")]),
 ('28: close inverted', 'C28', [(F, "        if session.transport:\n", "        if not session.transport:\n")]),
 ('28: args lost', 'C28', [(F, "session.connect(*args, **kwargs)", "session.connect(**kwargs)")]),
 ('28: other error', 'C28', [(F, "            session.close()\n        raise\n", "            session.close()\n        raise ConfigError(str(ex))\n")]),
 ('28: one exception', 'C28', [(F, "    except Exception as ex:\n        if session.transport", "    except transport.SSHError as ex:\n        if session.transport")]),
 ('28: option lost', 'C28', [(F, "['timeout', 'async_mode' , 'raise_mode']", "['timeout', 'raise_mode']")]),
 ('28: options not passed', 'C28', [(F, "    return ModelDevice(session, device_handler, **kwargs)", "    return ModelDevice(session, device_handler)")]),
 ('28: option default', 'C28', [(F, OPTS, "        self.timeout = kwargs.get('timeout')\n        if 'async_mode' in kwargs:\n            self.async_mode = kwargs['async_mode']\n        if 'raise_mode' in kwargs:\n            self.raise_mode = kwargs['raise_mode']\n")]),
 ('28: option truthy', 'C28', [(F, "            if arg in kwargs:\n", "            if kwargs.get(arg):\n")]),
 ('28 ref: get default', '-', [(F, KH, "    if kwargs.get('hostkey_verify', True):\n        session.load_known_hosts()\n")]),
 ('28 ref: early', '-', [(F, KH, "    verify = kwargs[\"hostkey_verify\"] if \"hostkey_verify\" in kwargs else True\n    if verify:\n        session.load_known_hosts()\n")]),
 ('28 ref: helper', '-', [(F, TRY, "    _open(session, args, kwargs)\n"), (F, "def connect(*args, **kwargs):\n", "def _open(session, args, kwargs):\n    try:\n        session.connect(*args, **kwargs)\n    except Exception:\n        if session.transport is not None:\n            session.close()\n        raise\n\n\ndef connect(*args, **kwargs):\n")]),
 ('28 ref: else', '-', [(F, "        raise\n    return ModelDevice(session, device_handler, **kwargs)", "        raise\n    else:\n        device = ModelDevice(session, device_handler, **kwargs)\n        return device")]),
 ('28 ref: opts', '-', [(F, OPTS, "        if 'timeout' in kwargs:\n            self.timeout = kwargs['timeout']\n        for arg in ('async_mode', 'raise_mode'):\n            if arg not in kwargs:\n                continue\n            setattr(self, arg, kwargs[arg])\n")]),
 ('28 ref: opts2', '-', [(F, OPTS, "        for arg, value in kwargs.items():\n            if arg in ('timeout', 'async_mode', 'raise_mode'):\n                setattr(self, arg, value)\n")]),
 # C26
 ('26: no cache reset', 'C26', [(F, "        self.compiler = ModelCompiler(folder)\n        self._namespaces = None\n", "        self.compiler = ModelCompiler(folder)\n")]),
 ('26: reset if none', 'C26', [(F, "        self.compiler = ModelCompiler(folder)\n        self._namespaces = None\n", "        if self.compiler is None:\n            self._namespaces = None\n        self.compiler = ModelCompiler(folder)\n")]),
 ('26: force checks', 'C26', [(F, "check_before_download=(download == 'check')", "check_before_download=(download != 'ignore')")]),
 ('26: force not', 'C26', [(F, "        if download in ['check', 'force']:\n", "        if download == 'check':\n")]),
 ('26: ignore downloads', 'C26', [(F, "        if download in ['check', 'force']:\n", "        if download in ['check', 'force'] or self.compiler is None:\n")]),
 ('26: default', 'C26', [(F, "def scan_models(self, folder='./yang', download='check')", "def scan_models(self, folder='./yang', download='force')")]),
 ('26: compile before', 'C26', [(F, SCAN, "        self.compiler = ModelCompiler(folder)\n        if download in ['check', 'force']:\n            d = ModelDownloader(self, folder)\n            d.download_all(check_before_download=(download == 'check'))\n        self._namespaces = None\n")]),
 ('26: keep compiler', 'C26', [(F, "        self.compiler = ModelCompiler(folder)\n        self._names", "        if self.compiler is None or download != 'ignore':\n            self.compiler = ModelCompiler(folder)\n        self._names")]),
 ('26: ns all', 'C26', [(F, "findall('./module'):\n                if m.get('prefix') is not None:", "findall('./module'):\n                if m.get('prefix') is not None and m.get('id') in self.models_loadable:")]),
 ('26: ns swap', 'C26', [(F, "                        m.get('id'),\n                        m.get('prefix'),\n", "                        m.get('prefix'),\n                        m.get('id'),\n")]),
 ('26: ns inverted', 'C26', [(F, "if m.get('prefix') is not None:\n", "if m.get('prefix') is None:\n")]),
 ('26: ns error', 'C26', [(F, "        if self.compiler is None:\n            raise ValueError('please first call scan_models() to build '\n                             'up supported namespaces of a device')\n        if self._n", "        if self.compiler is None:\n            return []\n        if self._n")]),
 ('26: loadable unsorted', 'C26', [(F, "        self._models_loadable = sorted(modules)\n", "        self._models_loadable = modules\n")]),
 ('26: loadable regex', 'C26', [(F, "module=([a-zA-Z0-9_.-]+)", "module=([a-zA-Z0-9-]+)")]),
 ('26: loadable regex2', 'C26', [(F, "module=([a-zA-Z0-9_.-]+)\\&{0,1}", "module=([a-zA-Z0-9_.-]+)\\&")]),
 ('26: loadable raise', 'C26', [(F, "            except Exception as e:\n                logger.warning(\n                    \"Error when sending Netconf GET of /modules-state", "            except operations.rpc.RPCError as e:\n                logger.warning(\n                    \"Error when sending Netconf GET of /modules-state")]),
 ('26: loadable not ok', 'C26', [(F, "                if reply.ok:\n                    self._models_loadable = \\\n                        sorted([n.text for n in reply.data.xpath(p, namespaces=n)])\n", "                self._models_loadable = \\\n                    sorted([n.text for n in reply.data.xpath(p, namespaces=n)])\n", 0), (F, "                if reply.ok:\n                    return self._models_loadable\n", "                if True:\n                    return self._models_loadable\n", 0)]),
 ('26: loadable stale', 'C26', [(F, "            else:\n                if reply.ok:\n                    return self._models_loadable\n", "            else:\n                if reply is not None:\n                    return self._models_loadable\n", 0)]),
 ('26: no fallback', 'C26', [(F, "                else:\n                    logger.warning(\n                        \"Error in Netconf reply when getting \"\n                        \"/netconf-state", "                else:\n                    return []\n                    logger.warning(\n                        \"Error in Netconf reply when getting \"\n                        \"/netconf-state")]),
 ('26: lib skipped', 'C26', [(F, LIBIF, "        if [c for c in self.server_capabilities\n                if c == YANG_LIB_1_0]:\n")]),
 ('26: mon wrong', 'C26', [(F, "'/ncm:schema/ncm:identifier'", "'/ncm:schema/ncm:location'")]),
 ('26: lib submodules', 'C26', [(F, "'/yanglib:module/yanglib:name'", "'/yanglib:module//yanglib:name'")]),
 ('26: mon filter', 'C26', [(F, "sorted([n.text for n in reply.data.xpath(p, namespaces=n)])\n            except Exception as e:\n                logger.warning(\n                    \"Error when sending Netconf GET of /netconf-state", "sorted([n.text for n in reply.data.xpath(p, namespaces=n)\n                                if '-devs' not in n.text])\n            except Exception as e:\n                logger.warning(\n                    \"Error when sending Netconf GET of /netconf-state")]),
 ('26: no memo', 'C26', [(F, "        if self._models_loadable is not None:\n            return self._models_loadable\n", "")]),
 ('26: caps filtered', 'C26', [(F, "            if match:\n                modules.append(match.group(1))\n", "            if match and 'revision=' in capability:\n                modules.append(match.group(1))\n")]),
 ('26: load any file', 'C26', [(F, "            if file_ext.lower() == '.xml':", "            if file_ext.lower() != '.yang':")]),
 ('26: load any name', 'C26', [(F, "        elif model in self.models_loadable:\n", "        elif self.compiler is not None or model in self.models_loadable:\n")]),
 ('26: load key', 'C26', [(F, "        self.models[m.name] = m\n", "        self.models[model] = m\n")]),
 ('26: load once', 'C26', [(F, "        self.models[m.name] = m\n", "        self.models.setdefault(m.name, m)\n        m = self.models[m.name]\n")]),
 ('26: load none', 'C26', [(F, "        self.models[m.name] = m\n        return m\n", "        self.models[m.name] = m\n")]),
 ('26: roots', 'C26', [(F, "            roots.update({r: model.name for r in model.roots})\n", "            roots.update({r: model.prefix for r in model.roots})\n")]),
 ('26: roots2', 'C26', [(F, "            roots.update({r: model.name for r in model.roots})\n", "            roots.update({r: model.name for r in model.roots\n                          if r.startswith('{' + model.url)})\n")]),
 ('26: loaded', 'C26', [(F, "        return sorted(self.models.keys())\n", "        return list(self.models.keys())\n")]),
 ('26 ref: startswith', '-', [(F, MONIF, "        if any(c.startswith(NC_MONITORING) for c in self.server_capabilities):\n"), (F, LIBIF, "        if any(c.startswith(YANG_LIB_1_0) for c in self.server_capabilities):\n")]),
 ('26 ref: comp', '-', [(F, CAPLOOP, "        found = [re.search(regexp_str, c) for c in self.server_capabilities]\n        self._models_loadable = sorted(m.group(1) for m in found if m)\n        return self._models_loadable\n")]),
 ('26 ref: ns comp', '-', [(F, NSLOOP, "            self._namespaces = [\n                (m.get('id'), m.get('prefix'), m.findtext('namespace'))\n                for m in self.compiler.context.dependencies.findall('./module')\n                if m.get('prefix') is not None]\n")]),
 ('26 ref: ns local', '-', [(F, NSLOOP, "            found = []\n            for m in self.compiler.context.dependencies.findall('module'):\n                prefix = m.get('prefix')\n                if prefix is None:\n                    continue\n                found.append((m.get('id'), prefix, m.find('namespace').text))\n            self._namespaces = found\n")]),
 ('26 ref: scan', '-', [(F, SCAN, "        self._namespaces = None\n        if download != 'ignore':\n            downloader = ModelDownloader(self, folder=folder)\n            downloader.download_all(download == 'check')\n        self.compiler = ModelCompiler(folder=folder)\n")]),
 ('26 ref: scan2', '-', [(F, SCAN, "        if download == 'check':\n            ModelDownloader(self, folder).download_all()\n        elif download == 'force':\n            ModelDownloader(self, folder).download_all(False)\n        self.compiler = ModelCompiler(folder)\n        self._namespaces = None\n")]),
 ('26 ref: roots', '-', [(F, ROOTS, "        return {root: m.name for m in self.models.values() for root in m.roots}\n")]),
 ('26 ref: roots2', '-', [(F, ROOTS, "        roots = {}\n        for m in self.models.values():\n            for root in m.roots:\n                roots[root] = m.name\n        return roots\n")]),
 ('26 ref: loaded', '-', [(F, "        return sorted(self.models.keys())\n", "        return sorted(self.models)\n")]),
 ('26 ref: loaded2', '-', [(F, "        return sorted(self.models.keys())\n", "        names = list(self.models)\n        names.sort()\n        return names\n")]),
 ('26 ref: ask helper', '-', [(F, "                reply = super().execute(operations.retrieve.Get,\n                                        filter=NC_MONITORING_FILTER)\n                if reply.ok:\n                    self._models_loadable = \\\n                        sorted([n.text for n in reply.data.xpath(p, namespaces=n)])\n", "                reply = self._ask(NC_MONITORING_FILTER)\n                if reply.ok:\n                    self._models_loadable = self._texts(reply, p, n)\n"),
   (F, "    @property\n    def models_loaded(self):\n", "    def _ask(self, flt):\n        return super().execute(operations.retrieve.Get, filter=flt)\n\n    @staticmethod\n    def _texts(reply, path, ns):\n        names = [x.text for x in reply.data.xpath(path, namespaces=ns)]\n        names.sort()\n        return names\n\n    @property\n    def models_loaded(self):\n")]),
 ('26 ref: try return', '-', [(F, "                if reply.ok:\n                    self._models_loadable = \\\n                        sorted([n.text for n in reply.data.xpath(p, namespaces=n)])\n            except Exception as e:\n                logger.warning(\n                    \"Error when sending Netconf GET of /netconf-state", "                if reply.ok:\n                    self._models_loadable = \\\n                        sorted([n.text for n in reply.data.xpath(p, namespaces=n)])\n                    return self._models_loadable\n            except Exception as e:\n                logger.warning(\n                    \"Error when sending Netconf GET of /netconf-state")]),
 ('26 ref: load', '-', [(F, "            if self.compiler is None:\n                raise ValueError('please first call scan_models() to build ' \\\n                                 'up supported namespaces of a device')\n            else:\n                m = self.compiler.compile(model)\n", "            if not self.compiler:\n                raise ValueError('no models yet')\n            m = self.compiler.compile(model)\n")]),
 ('26 ref: load2', '-', [(F, "                with open(model, 'r') as f:\n                    xml = f.read()\n                parser = etree.XMLParser(remove_blank_text=True)\n                tree = etree.XML(xml, parser)\n                m = Model(tree)\n", "                parser = etree.XMLParser(remove_blank_text=True)\n                m = Model(etree.parse(model, parser).getroot())\n")]),
]
if __name__ == '__main__':
    pids = sys.argv[1].split(',') if len(sys.argv) > 1 else ['C26', 'C28']
    sel = sys.argv[2] if len(sys.argv) > 2 else ''
    sys.exit(batch([c for c in CASES if sel in c[0]], pids))
