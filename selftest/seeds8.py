F = 'model.py'
HEAD = '''import os, sys, tempfile, threading, logging
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
logging.disable(logging.CRITICAL)
from ncclient import manager, operations
from ncdiff.manager import ModelDevice
from ncdiff.model import ModelDownloader, ModelCompiler
tmp = tempfile.TemporaryDirectory()
d = tmp.name
class Reply:
    ok = True
    def __init__(self, text):
        self.data = text
def mod(name, body='', pre=''):
    return ('module %s { namespace "urn:%s"; prefix %s; %s revision 2024-01-01; %s }'
            % (name, name, name, pre, body))
MODS = {}
ASKED = []
def execute(self, cls, *args, **kw):
    ASKED.append(args[0])
    r = MODS[args[0]]
    if isinstance(r, Exception):
        raise r
    if r is None:
        from lxml import etree
        raise operations.rpc.RPCError(etree.XML('<rpc-error xmlns="urn:ietf:params:xml:ns:netconf:base:1.0"><error-tag>x</error-tag></rpc-error>'))
    return Reply(r)
manager.Manager.execute = execute
class Dev(ModelDevice):
    caps = ['urn:a', 'urn:b']
    loadable = []
    def __init__(self):
        pass
    server_capabilities = property(lambda s: s.caps)
    models_loadable = property(lambda s: s.loadable)
def dl():
    return ModelDownloader(DEV, d)
DEV = Dev()
def run(f, t=20):
    """runs f, fails if it takes too long"""
    err = []
    def g():
        try:
            f()
        except BaseException as e:
            err.append(e)
    th = threading.Thread(target=g, daemon=True)
    th.start()
    th.join(t)
    if th.is_alive():
        print('hangs')
        os._exit(3)
    if err:
        raise err[0]
def have():
    return sorted(os.listdir(d))
'''
SEEDS = {
 'c17-unmark-late': dict(property='C17',
  edits=[(F, "        for root, dirs, files in os.walk(self.dir_yang):\n            for f in files:\n                os.remove(os.path.join(root, f))",
          "        with open(self.yang_capabilities, 'wb') as f:\n            f.write('\\n'.join(sorted(\n                list(self.device.server_capabilities))).encode('utf-8'))\n        for root, dirs, files in os.walk(self.dir_yang):\n            for f in files:\n                if f == 'capabilities.txt':\n                    continue\n                os.remove(os.path.join(root, f))")],
  demo=HEAD + """MODS['m'] = OSError('lost')
DEV.loadable = ['m']
run(lambda: dl().download_all())
assert dl().need_download
""", needs='a session that is lost while schemas are downloaded', breaks='the folder is said to be complete'),
 'c17-need-subset': dict(property='C17',
  edits=[(F, "            if c == '\\n'.join(sorted(list(self.device.server_capabilities))):",
          "            if not set(self.device.server_capabilities) - set(c.split('\\n')):")],
  demo=HEAD + """MODS['m'] = mod('m')
DEV.loadable = ['m']
run(lambda: dl().download_all())
assert not dl().need_download
DEV.caps = ['urn:a']
assert dl().need_download
""", needs='a device that has lost a capability since the last download', breaks='schemas of other software stay in use'),
 'c17-clean': dict(property='C17',
  edits=[(F, "            for f in files:\n                os.remove(os.path.join(root, f))",
          "            for f in files:\n                if f.lower().endswith(('.yang', '.txt')):\n                    os.remove(os.path.join(root, f))")],
  demo=HEAD + """MODS['m'] = mod('m', 'leaf a { type string; }')
DEV.loadable = ['m']
run(lambda: dl().download_all())
ModelCompiler(d).compile('m')
MODS['m'] = mod('m', 'leaf b { type string; }')
DEV.caps = ['urn:a']
run(lambda: dl().download_all())
assert [c.tag for c in ModelCompiler(d).compile('m').tree] == ['{urn:m}b']
""", needs='a compiled model in the folder and a device with other schemas', breaks='models compiled from earlier schemas are used'),
 'c17-damaged': dict(property='C17',
  edits=[(F, "        except Exception:\n            return None\n    else:", "        except OSError:\n            return None\n    else:")],
  demo=HEAD + """open(os.path.join(d, 'm.yang'), 'w').write(mod('m', 'leaf a { type string; }'))
open(os.path.join(d, 'dependencies.xml'), 'w').write('<modules><module id=')
assert ModelCompiler(d).compile('m') is not None
""", needs='a dependencies file cut off by a crash', breaks='the folder cannot be used any more'),
 'c18-done-after-error': dict(property='C18',
  edits=[(F, "                    self.downloader.download(module)\n                except Exception:\n                    logger.exception('Got error while downloading')\n                self.downloader.download_queue.task_done()",
          "                    self.downloader.download(module)\n                except AttributeError:\n                    logger.exception('Got error while downloading')\n                self.downloader.download_queue.task_done()")],
  demo=HEAD + """import threading
threading.excepthook = lambda a: None
for i in 'abc':
    MODS[i] = OSError('x')
DEV.loadable = ['a', 'b', 'c']
run(lambda: dl().download_all())
""", needs='requests that fail in both workers', breaks='download_all() never returns'),
 'c18-cycle': dict(property='C18',
  edits=[(F, "                self.to_be_downloaded.update(s)\n", "                self.to_be_downloaded.update(dependencies & s if reply.data.startswith('submodule') else ())\n")],
  demo=HEAD + """MODS['m'] = mod('m', '', 'import b { prefix b; }')
MODS['b'] = mod('b', '', 'import m { prefix m; } import c { prefix c; }')
MODS['c'] = mod('c', '', 'import b { prefix b; }')
DEV.loadable = ['m']
run(lambda: dl().download_all(), 10)
assert sorted(ASKED) == ['b', 'c', 'm'], ASKED
""", needs='modules outside models_loadable that import each other', breaks='modules are downloaded again and again'),
 'c18-import-dep': dict(property='C18',
  edits=[(F, "                    if child_node_name in ['include', 'import']:\n                        dependencies.add(statement.arg)\n",
          "                    if child_node_name in ['include', 'import']:\n                        if statement.search_one('revision-date') is None:\n                            dependencies.add(statement.arg)\n")],
  demo=HEAD + """MODS['m'] = mod('m', '', 'import b { prefix b; } import c { prefix c; revision-date 2024-01-01; }')
MODS['b'] = mod('b')
MODS['c'] = mod('c')
DEV.loadable = ['m']
run(lambda: dl().download_all())
assert 'c.yang' in have(), have()
""", needs='an import by revision of a module that is not loadable', breaks='a required module is not downloaded'),
 'c18-start-early': dict(property='C18',
  edits=[(F, "        for module in sorted(list(self.to_be_downloaded)):\n            self.download_queue.put(module)\n        for x in range(self.num_threads):\n            worker = DownloadWorker(self)\n            worker.daemon = True\n            worker.name = 'download_worker_{}'.format(x)\n            worker.start()\n",
          "        workers = []\n        for x in range(self.num_threads):\n            worker = DownloadWorker(self)\n            worker.daemon = True\n            worker.name = 'download_worker_{}'.format(x)\n            worker.start()\n            workers.append(worker)\n        for module in sorted(list(self.to_be_downloaded)):\n            self.download_queue.put(module)\n")],
  demo=HEAD + """MODS['m'] = mod('m')
class L(list):
    def __iter__(self):
        import time
        return list.__iter__(self)
DEV.loadable = ['m']
import ncdiff.model as md
start = md.DownloadWorker.start
def slow(self):
    start(self)
    self.join(0.5)
md.DownloadWorker.start = slow
run(lambda: dl().download_all(), 10)
assert 'm.yang' in have()
""", needs='workers that run before the queue is filled', breaks='download_all() never returns'),
 'c18-context-else': dict(property='C18',
  edits=[(F, "        if module_statement.keyword == 'submodule':\n            statement = module_statement.search_one(\"belongs-to\")",
          "        if module_statement.keyword == 'submodule':\n            module_node.attrib.pop('type')\n            statement = module_statement.search_one(\"belongs-to\")")],
  demo=HEAD + """MODS['m'] = mod('m', '', 'include s;')
MODS['s'] = 'submodule s { belongs-to m { prefix m; } revision 2024-01-01; leaf a { type string; } }'
DEV.loadable = ['m']
x = dl()
run(lambda: x.download_all())
r = {i.get('id'): i.get('type') for i in x.context.dependencies}
assert r == {'m': 'module', 's': 'submodule'}, r
""", needs='a module with submodules', breaks='the record of submodules has no type'),
}
