"""Builds a ModelDevice over a scratch folder with two tiny YANG modules (no network)."""
import os, sys, tempfile, shutil, atexit, logging
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
logging.disable(logging.CRITICAL)
from lxml import etree
from ncclient.devices.default import DefaultDeviceHandler
from ncdiff.manager import ModelDevice
from ncdiff.config import Config, ConfigDelta

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YG = 'urn:ietf:params:xml:ns:yang:1'
TYPES = '''module types { namespace "urn:types"; prefix tp;
  identity base-id; identity red { base base-id; } identity blue { base base-id; } identity green { base base-id; }
}'''
DEMO = '''module demo { namespace "urn:demo"; prefix dm;
  import types { prefix tp; }
  container top {
    leaf name { type string; }
    leaf mtu { type uint16; default "1500"; }
    leaf color { type identityref { base tp:base-id; } }
    leaf ref { type instance-identifier; }
    leaf-list tag { type string; }
    leaf-list otag { type string; ordered-by user; }
    leaf-list dtag { type string; default "a"; default "b"; }
    leaf-list ctag { type identityref { base tp:base-id; } }
    container np { leaf a { type string; } leaf b { type string; default "x"; } leaf-list ll { type string; }
      container deep { leaf z { type string; } list dl { key k; leaf k { type string; } leaf v { type string; } } } }
    container pc { presence "yes"; leaf a { type string; } }
    list item { key "id"; leaf id { type string; } leaf v { type string; } leaf w { type string; }
      leaf-list lt { type string; } container sub { leaf s { type string; } } }
    list oitem { key "id"; ordered-by user; leaf id { type string; } leaf v { type string; }
      container sub { leaf s { type string; } } }
    list two { key "k1 k2"; leaf k1 { type string; } leaf k2 { type string; } leaf v { type string; } }
    list citem { key "kind"; leaf kind { type identityref { base tp:base-id; } } leaf v { type string; } }
    choice ch { case c1 { leaf x1 { type string; } leaf x2 { type string; } } case c2 { leaf y1 { type string; } } }
    container st { config false; leaf up { type string; } }
    leaf ro { config false; type string; }
    leaf old { type string; status obsolete; }
    leaf dep { type string; status deprecated; }
  }
  container other { leaf o { type string; } }
}'''

class Session:
    def __init__(self, caps):
        self._server_capabilities = caps
        self._connected = True
        self.transport = None
    @property
    def connected(self): return True
    def add_listener(self, l): pass
    def get_listener_instance(self, c): return None
    def is_alive(self): return True
    def close(self): pass
    def send(self, m): pass

def device(models=('demo',), yang=None):
    d = tempfile.mkdtemp(prefix='ncdemo')
    atexit.register(shutil.rmtree, d, True)
    files = {'types': TYPES, 'demo': DEMO}
    files.update(yang or {})
    for n, t in files.items():
        with open(os.path.join(d, n + '.yang'), 'w') as f:
            f.write(t)
    caps = ['urn:{0}?module={0}&revision=2020-01-01'.format(n) for n in files]
    dev = ModelDevice(Session(caps), DefaultDeviceHandler())
    dev.scan_models(folder=d, download='ignore')
    for m in models:
        dev.load_model(m)
    dev.folder = d
    return dev

def xml(body):
    return '<nc:config xmlns:nc="%s"><top xmlns="urn:demo" xmlns:dm="urn:demo" xmlns:tp="urn:types" xmlns:yang="%s">%s</top></nc:config>' % (NC, YG, body)

def cfg(dev, body, **k):
    return Config(dev, xml(body), **k)
