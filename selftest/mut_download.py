import sys
from lib import batch
F = 'model.py'
CAPS = "        if os.path.isfile(self.yang_capabilities):\n            os.remove(self.yang_capabilities)\n"
CLEAN = "        for root, dirs, files in os.walk(self.dir_yang):\n            for f in files:\n                os.remove(os.path.join(root, f))\n"
WRITE = "        capabilities = '\\n'.join(sorted(list(self.device.server_capabilities)))\n        if not self.incomplete:\n            with open(self.yang_capabilities, 'wb') as f:\n                f.write(capabilities.encode('utf-8'))\n"
JOIN = "        self.download_queue.join()\n"
PUT = "        for module in sorted(list(self.to_be_downloaded)):\n            self.download_queue.put(module)\n"
START = "        for x in range(self.num_threads):\n            worker = DownloadWorker(self)\n            worker.daemon = True\n            worker.name = 'download_worker_{}'.format(x)\n            worker.start()\n"
RUN = "                try:\n                    self.downloader.download(module)\n                except Exception:\n                    logger.exception('Got error while downloading')\n                self.downloader.download_queue.task_done()\n"
NEED = "            if c == '\\n'.join(sorted(list(self.device.server_capabilities))):\n                return False\n"
CL = "            s = dependencies - self.to_be_downloaded\n            if s:\n                logger.info('{} requires submodules: {}'\n                            .format(module, ', '.join(s)))\n                self.to_be_downloaded.update(s)\n                for m in s:\n                    self.download_queue.put(m)\n"
SAVE = "            try:\n                with open(fname, 'wb') as f:\n                    f.write(reply.data.encode('utf-8'))\n            except OSError:\n                self.incomplete = True\n                raise\n"
EXC = "        except Exception:\n            # neither downloaded nor refused by the device, e.g. the session\n            # is lost\n            self.incomplete = True\n            raise\n"
CXLIST = "        for filename in os.listdir(self.repository.dirs[0]):\n            if filename.lower().endswith('.yang'):\n                filepath = os.path.join(self.repository.dirs[0], filename)\n                self.modulefile_queue.put(filepath)\n"
CXSTART = "        for x in range(self.num_threads):\n            worker = ContextWorker(self)\n            worker.daemon = True\n            worker.name = 'context_worker_{}'.format(x)\n            worker.start()\n"
CASES = [
 ('17: caps kept', 'C17', [(F, CAPS, "")]),
 ('17: caps after', 'C17', [(F, CAPS + CLEAN, CLEAN + CAPS)]),
 ('17: clean yang only', 'C17', [(F, "                os.remove(os.path.join(root, f))\n", "                if f.endswith('.yang'):\n                    os.remove(os.path.join(root, f))\n")]),
 ('17: clean not', 'C17', [(F, CLEAN, "")]),
 ('17: clean dirs', 'C17', [(F, "            for f in files:\n                os.remove", "            for f in dirs:\n                os.remove")]),
 ('17: write before join', 'C17', [(F, JOIN + "\n        # write self.yang_capabilities\n" + WRITE, "        # write self.yang_capabilities\n" + WRITE + JOIN)]),
 ('17: write always', 'C17', [(F, "        if not self.incomplete:\n            with open", "        if self.to_be_downloaded:\n            with open")]),
 ('17: no reset', 'C17', [(F, "        self.incomplete = False\n", "        self.incomplete = getattr(self, 'incomplete', False)\n")]),
 ('17: not recorded', 'C17', [(F, EXC, "        except Exception:\n            raise\n")]),
 ('17: only timeout', 'C17', [(F, EXC, "        except operations.errors.TimeoutExpiredError:\n            self.incomplete = True\n            raise\n")]),
 ('17: oserror', 'C17', [(F, "            except OSError:\n                self.incomplete = True\n                raise\n", "            except OSError:\n                logger.warning('cannot save')\n                raise\n")]),
 ('17: rpcerror wide', 'C17', [(F, "        except operations.rpc.RPCError:\n            logger.warning(\"Module", "        except Exception:\n            logger.warning(\"Module")]),
 ('17: refused', 'C17', [(F, "                           .format(module))\n            return\n", "                           .format(module))\n            self.incomplete = True\n            return\n")]),
 ('17: need subset', 'C17', [(F, NEED, "            if set(c.split('\\n')) <= set(self.device.server_capabilities):\n                return False\n")]),
 ('17: need in', 'C17', [(F, NEED, "            if all(i in c for i in self.device.server_capabilities):\n                return False\n")]),
 ('17: need len', 'C17', [(F, NEED, "            if len(c.split('\\n')) == len(list(self.device.server_capabilities)):\n                return False\n")]),
 ('17: need filter', 'C17', [(F, NEED, "            if c == '\\n'.join(sorted(i for i in self.device.server_capabilities if 'module=' in i)):\n                return False\n")]),
 ('17: need missing', 'C17', [(F, "                return False\n        return True\n\n    def download_all", "                return False\n            return True\n        return False\n\n    def download_all")]),
 ('17: text differs', 'C17', [(F, "        capabilities = '\\n'.join(sorted(list(self.device.server_capabilities)))", "        capabilities = '\\n'.join(sorted(list(self.device.server_capabilities))[1:])")]),
 ('17: force checked', 'C17', [(F, "        if check_before_download and not self.need_download:", "        if not self.need_download:")]),
 ('17: never skip', 'C17', [(F, "        if check_before_download and not self.need_download:", "        if check_before_download and self.need_download:")]),
 ('17: damaged', 'C17', [(F, "        except Exception:\n            return None\n", "        except OSError:\n            return None\n")]),
 ('17: deps', 'C17', [(F, "            if self.context.dependencies is None:\n                self.context.load_context()\n", "")]),
 ('17: loadable late', 'C17', [(F, CAPS + CLEAN, CLEAN), (F, "        self.incomplete = False\n", CAPS + "        self.incomplete = False\n")]),
 ('17: finally', 'C17', [(F, "        self.to_be_downloaded = set(self.device.models_loadable)\n", "        try:\n            self.to_be_downloaded = set(self.device.models_loadable)\n        finally:\n            with open(self.yang_capabilities, 'wb') as f:\n                f.write('\\n'.join(sorted(list(self.device.server_capabilities))).encode('utf-8'))\n")]),
 ('18: done first', 'C18', [(F, RUN, "                self.downloader.download_queue.task_done()\n                try:\n                    self.downloader.download(module)\n                except Exception:\n                    logger.exception('Got error while downloading')\n")]),
 ('18: done in try', 'C18', [(F, RUN, "                try:\n                    self.downloader.download(module)\n                    self.downloader.download_queue.task_done()\n                except Exception:\n                    logger.exception('Got error while downloading')\n")]),
 ('18: done twice', 'C18', [(F, "                    logger.exception('Got error while downloading')\n", "                    logger.exception('Got error while downloading')\n                    self.downloader.download_queue.task_done()\n")]),
 ('18: rpc only', 'C18', [(F, "                except Exception:\n                    logger.exception('Got error while downloading')\n", "                except operations.rpc.RPCError:\n                    logger.exception('Got error while downloading')\n")]),
 ('18: stop', 'C18', [(F, "                    logger.exception('Got error while downloading')\n                self.downloader.download_queue.task_done()\n", "                    logger.exception('Got error while downloading')\n                    self.downloader.download_queue.task_done()\n                    break\n                self.downloader.download_queue.task_done()\n")]),
 ('18: one only', 'C18', [(F, "                self.downloader.download_queue.task_done()\n", "                self.downloader.download_queue.task_done()\n                return\n")]),
 ('18: start first', 'C18', [(F, PUT + START, START + PUT)]),
 ('18: no join', 'C18', [(F, "        self.download_queue.join()\n\n        # write self", "        # write self")]),
 ('18: not queued', 'C18', [(F, "                for m in s:\n                    self.download_queue.put(m)\n", "                self.download_queue.put(s.pop())\n")]),
 ('18: no update', 'C18', [(F, "                self.to_be_downloaded.update(s)\n", "")]),
 ('18: all deps', 'C18', [(F, "            s = dependencies - self.to_be_downloaded\n", "            s = dependencies\n")]),
 ('18: some', 'C18', [(F, "            s = dependencies - self.to_be_downloaded\n            if s:\n", "            s = dependencies - self.to_be_downloaded\n            if s and not module.startswith('ietf'):\n")]),
 ('18: only sub', 'C18', [(F, "                    if child_node_name in ['include', 'import']:\n", "                    if child_node_name in ['include']:\n")]),
 ('18: sorted slice', 'C18', [(F, PUT, "        for module in sorted(list(self.to_be_downloaded))[1:]:\n            self.download_queue.put(module)\n")]),
 ('18: filter', 'C18', [(F, PUT, "        for module in sorted(list(self.to_be_downloaded)):\n            if module.startswith('Cisco'):\n                self.download_queue.put(module)\n")]),
 ('18: zero', 'C18', [(F, "        self.download_queue = queue.Queue()\n        self.num_threads = 2", "        self.download_queue = queue.Queue()\n        self.num_threads = 0")]),
 ('18: latin', 'C18', [(F, "f.write(reply.data.encode('utf-8'))", "f.write(reply.data.encode('latin-1'))")]),
 ('18: not ok', 'C18', [(F, "        if reply.ok:\n            varnames", "        if reply is not None:\n            varnames")]),
 ('18: fname', 'C18', [(F, "fname = os.path.join(self.dir_yang, module+'.yang')", "fname = os.path.join(self.dir_yang, 'module.yang')")]),
 ('18: no deps reset', 'C18', [(F, "        self.context.dependencies = etree.Element('modules')\n        for module", "        for module")]),
 ('18: ctx done', 'C18', [(F, "                except Exception:\n                    logger.exception('Got error while parsing {}'\n                                     .format(modulefile))\n                self.context.modulefile_queue.task_done()\n", "                except Exception:\n                    logger.exception('Got error while parsing {}'\n                                     .format(modulefile))\n                else:\n                    self.context.modulefile_queue.task_done()\n")]),
 ('18: ctx oserror', 'C18', [(F, "                except Exception:\n                    logger.exception('Got error while parsing {}'\n", "                except ValueError:\n                    logger.exception('Got error while parsing {}'\n")]),
 ('18: ctx open', 'C18', [(F, "                try:\n                    with open(modulefile, 'r', encoding='utf-8') as f:\n                        text = f.read()\n", "                with open(modulefile, 'r', encoding='utf-8') as f:\n                    text = f.read()\n                try:\n")]),
 ('18: ctx start', 'C18', [(F, CXLIST + CXSTART, CXSTART + CXLIST)]),
 ('18: ctx list', 'C18', [(F, "            if filename.lower().endswith('.yang'):\n", "            if filename.endswith('.yang') and '@' not in filename:\n")]),
 ('18: ctx write', 'C18', [(F, "        self.modulefile_queue.join()\n        self.write_dependencies()\n", "        self.write_dependencies()\n        self.modulefile_queue.join()\n")]),
 ('18: ctx tree', 'C18', [(F, "        self.dependencies = etree.Element('modules')\n        self.modulefile_queue", "        self.modulefile_queue")]),
 ('18: ctx record', 'C18', [(F, "                    if module_statement is not None:\n                        self.context.update", "                    if module_statement is not None and \\\n                       module_statement.keyword == 'module':\n                        self.context.update")]),
 ('18: prefix', 'C18', [(F, "                module_node.set('prefix', statement.arg)\n", "                module_node.set('prefix', module_statement.arg)\n")]),
 ('18: ns', 'C18', [(F, "                namespace.text = statement.arg\n        if module_statement", "        if module_statement")]),
 ('18: belongs', 'C18', [(F, "                belongs_to.set('module', statement.arg)", "                belongs_to.set('module', module_statement.arg)")]),
 ('18: record first', 'C18', [(F, "                for statement in statements:\n                    child =", "                for statement in statements[:1]:\n                    child =")]),
 ('18: record id', 'C18', [(F, "            if m.attrib.get('id') == module_statement.arg\n        ]:\n            self.dependencies.remove(m)\n", "            if m.attrib.get('id') == module_statement.arg\n        ]:\n            return set()\n")]),
 # refactorings
 ('R: 17 helper', '-', [(F, CAPS + CLEAN, "        self._clean_up()\n"), (F, "    def download_all(self, check", "    def _clean_up(self):\n" + CAPS + CLEAN + "\n    def download_all(self, check")]),
 ('R: 17 try', '-', [(F, CAPS, "        try:\n            os.remove(self.yang_capabilities)\n        except FileNotFoundError:\n            pass\n")]),
 ('R: 17 need', '-', [(F, NEED + "        return True\n", "            return c != '\\n'.join(sorted(self.device.server_capabilities))\n        return True\n")]),
 ('R: 17 need2', '-', [(F, "        if os.path.isfile(self.yang_capabilities):\n            with open(self.yang_capabilities, 'r') as f:\n                c = f.read()\n" + NEED + "        return True\n", "        if not os.path.isfile(self.yang_capabilities):\n            return True\n        with open(self.yang_capabilities, 'r') as f:\n            saved = f.read()\n        return saved != self._capabilities_text()\n\n    def _capabilities_text(self):\n        return '\\n'.join(sorted(list(self.device.server_capabilities)))\n"), (F, "        capabilities = '\\n'.join(sorted(list(self.device.server_capabilities)))\n        if not self.incomplete:", "        capabilities = self._capabilities_text()\n        if not self.incomplete:")]),
 ('R: 17 guard', '-', [(F, WRITE, "        if self.incomplete:\n            logger.warning('incomplete')\n        else:\n            text = '\\n'.join(sorted(list(self.device.server_capabilities)))\n            with open(self.yang_capabilities, 'wb') as f:\n                f.write(text.encode('utf-8'))\n")]),
 ('R: 17 skip', '-', [(F, "        if check_before_download and not self.need_download:\n", "        skip = check_before_download and not self.need_download\n        if skip:\n")]),
 ('R: 17 list', '-', [(F, CLEAN, "        paths = [os.path.join(root, f)\n                 for root, _, files in os.walk(self.dir_yang)\n                 for f in files]\n        for path in paths:\n            os.remove(path)\n")]),
 ('R: 17 deps first', '-', [(F, "        # write self.yang_capabilities\n" + WRITE + "\n        # write dependencies\n        self.context.write_dependencies()\n", "        # write dependencies\n        self.context.write_dependencies()\n\n        # write self.yang_capabilities\n" + WRITE)]),
 ('R: 17 flag in worker', '-', [(F, EXC, "        except Exception:\n            raise\n"), (F, SAVE, "            with open(fname, 'wb') as f:\n                f.write(reply.data.encode('utf-8'))\n"), (F, "                    logger.exception('Got error while downloading')\n", "                    logger.exception('Got error while downloading')\n                    self.downloader.incomplete = True\n")]),
 ('R: 18 finally', '-', [(F, RUN, "                try:\n                    self.downloader.download(module)\n                except Exception:\n                    logger.exception('Got error while downloading')\n                finally:\n                    self.downloader.download_queue.task_done()\n")]),
 ('R: 18 forever', '-', [(F, "        while not self.downloader.download_queue.empty():\n            try:\n                module = self.downloader.download_queue.get(timeout=0.01)\n            except queue.Empty:\n                pass\n            else:\n" + RUN, "        q = self.downloader.download_queue\n        while True:\n            try:\n                module = q.get(timeout=0.01)\n            except queue.Empty:\n                if q.empty():\n                    break\n                continue\n            try:\n                self.downloader.download(module)\n            except Exception:\n                logger.exception('Got error while downloading')\n            q.task_done()\n")]),
 ('R: 18 continue', '-', [(F, "            except queue.Empty:\n                pass\n            else:\n" + RUN, "            except queue.Empty:\n                continue\n            try:\n                self.downloader.download(module)\n            except Exception:\n                logger.exception('Got error while downloading')\n            self.downloader.download_queue.task_done()\n")]),
 ('R: 18 helper', '-', [(F, RUN, "                self._work(module)\n"), (F, "class ContextWorker(Thread):\n", "class ContextWorker(Thread):\n"), (F, "    def run(self):\n        while not self.downloader", "    def _work(self, module):\n        try:\n            self.downloader.download(module)\n        except Exception:\n            logger.exception('Got error while downloading')\n        self.downloader.download_queue.task_done()\n\n    def run(self):\n        while not self.downloader")]),
 ('R: 18 closure', '-', [(F, CL, "            for m in dependencies:\n                if m not in self.to_be_downloaded:\n                    self.to_be_downloaded.add(m)\n                    self.download_queue.put(m)\n")]),
 ('R: 18 closure2', '-', [(F, CL, "            missing = [m for m in dependencies if m not in self.to_be_downloaded]\n            self.to_be_downloaded.update(missing)\n            for m in missing:\n                self.download_queue.put(m)\n")]),
 ('R: 18 closure3', '-', [(F, CL, "            s = dependencies.difference(self.to_be_downloaded)\n            self.to_be_downloaded |= s\n            for m in sorted(s):\n                self.download_queue.put(m)\n")]),
 ('R: 18 early', '-', [(F, CL, "            s = dependencies - self.to_be_downloaded\n            if not s:\n                return\n            logger.info('{} requires'.format(module))\n            self.to_be_downloaded.update(s)\n            for m in s:\n                self.download_queue.put(m)\n")]),
 ('R: 18 workers', '-', [(F, START, "        workers = [DownloadWorker(self) for _ in range(self.num_threads)]\n        for x, worker in enumerate(workers):\n            worker.daemon = True\n            worker.name = 'download_worker_{}'.format(x)\n            worker.start()\n")]),
 ('R: 18 kwargs', '-', [(F, "            if 'primary_module' in varnames:\n                kwargs['primary_module'] = True\n            if 'format' in varnames:\n                kwargs['format'] = 'yang'\n            if 'in_format' in varnames:\n                kwargs['in_format'] = 'yang'\n            module_statement = self", "            for k, v in (('primary_module', True), ('format', 'yang'), ('in_format', 'yang')):\n                if k in varnames:\n                    kwargs[k] = v\n            module_statement = self")]),
 ('R: 18 ctx', '-', [(F, CXLIST, "        folder = self.repository.dirs[0]\n        names = [n for n in os.listdir(folder) if n.lower().endswith('.yang')]\n        for name in names:\n            self.modulefile_queue.put(os.path.join(folder, name))\n")]),
 ('R: 18 ctx none', '-', [(F, "                    if module_statement is not None:\n                        self.context.update", "                    if module_statement:\n                        self.context.update")]),
 ('R: 18 rec', '-', [(F, "        for m in [\n            m for m in self.dependencies\n            if m.attrib.get('id') == module_statement.arg\n        ]:\n            self.dependencies.remove(m)\n", "        for m in list(self.dependencies):\n            if m.get('id') == module_statement.arg:\n                self.dependencies.remove(m)\n")]),
 ('R: 18 rec2', '-', [(F, "            statements = module_statement.search(child_node_name)\n            if statements:\n                parent = etree", "            statements = module_statement.search(child_node_name)\n            if len(statements) > 0:\n                parent = etree")]),
 ('R: 18 put first', '-', [(F, "        self.incomplete = False\n        self.to_be_downloaded = set(self.device.models_loadable)\n        self.context.dependencies = etree.Element('modules')\n", "        self.context.dependencies = etree.Element('modules')\n        models = self.device.models_loadable\n        self.to_be_downloaded = set(models)\n        self.incomplete = False\n")]),
]
if __name__ == '__main__':
    batch(CASES, sys.argv[1].split(','))
