From 13df1b8e13405f7da8d4ec4275443a9f8a56eeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:41 +0000
Subject: [PATCH 01/29] fix: read list keys of identityref type with their own
 schema node when pairing list instances

---
 src/ncdiff/calculator.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index 52ba99c..ecc804a 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -153,13 +153,11 @@ class BaseCalculator(object):
                                           self.device.get_xpath(node)))
             return s[0]
 
-        def build_index_tuple(node, keys, s_node):
+        def build_index_tuple(node, keys):
             """
             build a tuple containing the text of all fields listed in keys, taken from node
-
-            s_node is passed to prevent it being looked up twice.
             """
-            out = [self._parse_text(find_one_child(node, k), s_node) for k in keys]
+            out = [self._parse_text(find_one_child(node, k)) for k in keys]
             return tuple(out)
 
         type_for_tag = {}
@@ -192,7 +190,7 @@ class BaseCalculator(object):
                 key = self._parse_text(child, s_node)
             elif node_type == 'list':
                 keys = self._get_list_keys(s_node)
-                key = build_index_tuple(child, keys, s_node)
+                key = build_index_tuple(child, keys)
             return (tag, key)
 
         # build the hashmap for node_one
-- 
2.43.0


From c2148a62a50ef5ebc2f68bebd87b9a5cab93a5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:23 +0000
Subject: [PATCH 02/29] fix: creating a node of one case of a choice removes
 the other cases

---
 src/ncdiff/netconf.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index d93cd67..c6098d9 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -505,6 +505,7 @@ class NetconfCalculator(BaseCalculator):
                 this_operation == 'create'
             ):
                 s_node = self.device.get_schema_node(child_other)
+                self._remove_other_cases(node_sum, s_node)
                 if s_node.get('type') in supported_node_type:
                     getattr(
                         self,
@@ -539,6 +540,41 @@ class NetconfCalculator(BaseCalculator):
                 ):
                     node_sum.remove(child_self)
 
+    def _remove_other_cases(self, node_sum, schema_node):
+        '''_remove_other_cases
+
+        Low-level api: Only one case of a choice can exist at any time. Remove
+        nodes under node_sum that belong to other cases when a node of a case
+        is going to be created. RFC7950 section 7.9 is a reference of this
+        method.
+
+        Parameters
+        ----------
+
+        node_sum : `Element`
+            A config node in a config tree.
+
+        schema_node : `Element`
+            Schema node of the child that is going to be created under
+            node_sum.
+
+        Returns
+        -------
+
+        None
+            There is no return of this method.
+        '''
+
+        case = schema_node.getparent()
+        while case is not None and case.get('type') == 'case':
+            choice = case.getparent()
+            for child in node_sum.getchildren():
+                ancestors = list(
+                    self.device.get_schema_node(child).iterancestors())
+                if choice in ancestors and case not in ancestors:
+                    node_sum.remove(child)
+            case = choice.getparent()
+
     def _node_add_without_peer_leaf(self, node_sum, child_other):
         '''_node_add_without_peer_leaf
 
-- 
2.43.0


From 269cea728a414b8ee22b633d2d9402d8cdfcf132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 03/29] fix: reject edit-config attributes on leaf nodes when
 validating a config

---
 src/ncdiff/config.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index aa351b8..c7b8505 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -468,11 +468,6 @@ class Config(object):
                         p = self.device.get_xpath(node, instance=False)
                         raise ConfigError("missing key '{}' of the config "
                                           "node {}".format(key, p))
-            for tag in operation_tag, insert_tag, value_tag, key_tag:
-                if node.get(tag):
-                    raise ConfigError("the config node contains invalid "
-                                      "attribute '{}': {}"
-                                      .format(tag, self.device.get_xpath(node)))
 
         for child in node:
 
@@ -481,6 +476,12 @@ class Config(object):
                 raise ConfigError("schema node of the config node {} cannot "
                                   "be found:\n{}"
                                   .format(self.device.get_xpath(child), self))
+            for tag in operation_tag, insert_tag, value_tag, key_tag:
+                if child.get(tag):
+                    raise ConfigError("the config node contains invalid "
+                                      "attribute '{}': {}"
+                                      .format(tag,
+                                              self.device.get_xpath(child)))
 
             if len(child) > 0:
                 self._validate_node(child)
-- 
2.43.0


From ad8a13dbb37575c19f878153262c5d437ae691a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:29 +0000
Subject: [PATCH 04/29] fix: validate and generate random_seed when a
 ConfigDelta is instantiated

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index c7b8505..d4e9dbd 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -672,7 +672,7 @@ class ConfigDelta(object):
             raise ValueError("argument 'random_depth' must be a non-negative "
                              "integer or None, but not {} '{}'"
                              .format(type(random_depth), random_depth))
-        self._random_seed = random_seed
+        self.random_seed = random_seed
         if not isinstance(config_src, Config):
             raise TypeError("argument 'config_src' must be "
                             "yang.ncdiff.Config, but not '{}'"
-- 
2.43.0


From 99adf7f45a35bf0ee354ac39e319d727e0b58dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:57 +0000
Subject: [PATCH 05/29] fix: adding something else to a ConfigDelta is not
 supported instead of None

---
 src/ncdiff/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index d4e9dbd..ba56686 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -788,6 +788,8 @@ class ConfigDelta(object):
     def __add__(self, other):
         if isinstance(other, Config):
             return other + self.nc
+        else:
+            return NotImplemented
 
     def __sub__(self, other):
         return NotImplemented
-- 
2.43.0


From cdbdafd704a9b945db1c944d18c48b7309d39cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 06/29] fix: do not trim list keys that have a default value

---
 src/ncdiff/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index ba56686..6002315 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -403,6 +403,7 @@ class Config(object):
             # mandatory.
             elif (
                 child_schema_node.get('type') == 'leaf' and
+                not child_schema_node.get('is_key') and
                 child_schema_node.get('default') is not None and
                 child.text == child_schema_node.get('default')
             ):
-- 
2.43.0


From edc223d2e42109359e0d5be9bd3ca622e1a9e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:45 +0000
Subject: [PATCH 07/29] fix: split list keys at any white space

---
 src/ncdiff/composer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/composer.py b/src/ncdiff/composer.py
index 3053a97..1a92c29 100755
--- a/src/ncdiff/composer.py
+++ b/src/ncdiff/composer.py
@@ -160,7 +160,7 @@ class Composer(object):
             if keys is None:
                 return []
             keys = [split_tag(i, Tag.JSON_PREFIX)[1]
-                    for i in re.split(' +', keys)]
+                    for i in keys.split()]
             key_tags = [find_key_tag(key) for key in keys]
             return [key_tag for key_tag in key_tags if key_tag is not None]
         else:
-- 
2.43.0


From 315a996b51dfbe17e74ec2c7ab4647308fc20d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:45 +0000
Subject: [PATCH 08/29] fix: read modules of ietf-yang-library from its own
 namespace

---
 src/ncdiff/manager.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index f4cea8b..4c65368 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -133,8 +133,8 @@ class ModelDevice(manager.Manager):
         if self._models_loadable is not None:
             return self._models_loadable
         NC_MONITORING = xml_.NETCONF_MONITORING_NS
-        YANG_LIB = 'urn:ietf:params:netconf:capability:yang-library'
-        YANG_LIB_1_0 = YANG_LIB + ':1.0'
+        YANG_LIB = 'urn:ietf:params:xml:ns:yang:ietf-yang-library'
+        YANG_LIB_1_0 = 'urn:ietf:params:netconf:capability:yang-library:1.0'
         NC_MONITORING_FILTER = """
             <filter xmlns="urn:ietf:params:xml:ns:netconf:base:1.0" type="subtree">
               <netconf-state xmlns="urn:ietf:params:xml:ns:yang:ietf-netconf-monitoring">
-- 
2.43.0


From 99443f89b83668996466c6f12e12dc324b851ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:45 +0000
Subject: [PATCH 09/29] fix: rebuild namespaces of a device when its models are
 scanned again

---
 src/ncdiff/manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 4c65368..a927d05 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -272,6 +272,7 @@ class ModelDevice(manager.Manager):
             d = ModelDownloader(self, folder)
             d.download_all(check_before_download=(download == 'check'))
         self.compiler = ModelCompiler(folder)
+        self._namespaces = None
 
     def load_model(self, model):
         '''load_model
-- 
2.43.0


From cc7d9c12d893e800e892abc9647fc4e1a6e42c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:45 +0000
Subject: [PATCH 10/29] fix: remove capabilities.txt first when a download
 starts

---
 src/ncdiff/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 8ebc5e4..c8bacd8 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -818,7 +818,10 @@ class ModelDownloader(object):
                         .format(self.yang_capabilities))
             return
 
-        # clean up folder self.dir_yang
+        # clean up folder self.dir_yang, beginning with self.yang_capabilities
+        # so that an interrupted download is not taken as a complete one
+        if os.path.isfile(self.yang_capabilities):
+            os.remove(self.yang_capabilities)
         for root, dirs, files in os.walk(self.dir_yang):
             for f in files:
                 os.remove(os.path.join(root, f))
-- 
2.43.0


From cb02049c6043c1eb7a8d453e92f946896902323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:45 +0000
Subject: [PATCH 11/29] fix: create the dependency tree before context workers
 start

---
 src/ncdiff/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index c8bacd8..3b976ca 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -698,6 +698,7 @@ class CompilerContext(Context):
         self.dependencies = read_xml(dependencies_file)
 
     def load_context(self):
+        self.dependencies = etree.Element('modules')
         self.modulefile_queue = queue.Queue()
         for filename in os.listdir(self.repository.dirs[0]):
             if filename.lower().endswith('.yang'):
-- 
2.43.0


From 6da8553330847d4853892a209336da0bd026c225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:45 +0000
Subject: [PATCH 12/29] fix: keep a context worker alive when a YANG file
 cannot be read

---
 src/ncdiff/model.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 3b976ca..2752bd7 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -526,21 +526,25 @@ class ContextWorker(Thread):
             except queue.Empty:
                 pass
             else:
-                with open(modulefile, 'r', encoding='utf-8') as f:
-                    text = f.read()
-                kwargs = {
-                    'ref': modulefile,
-                    'text': text,
-                }
-                if 'primary_module' in varnames:
-                    kwargs['primary_module'] = True
-                if 'format' in varnames:
-                    kwargs['format'] = 'yang'
-                if 'in_format' in varnames:
-                    kwargs['in_format'] = 'yang'
-                module_statement = self.context.add_module(**kwargs)
-                if module_statement is not None:
-                    self.context.update_dependencies(module_statement)
+                try:
+                    with open(modulefile, 'r', encoding='utf-8') as f:
+                        text = f.read()
+                    kwargs = {
+                        'ref': modulefile,
+                        'text': text,
+                    }
+                    if 'primary_module' in varnames:
+                        kwargs['primary_module'] = True
+                    if 'format' in varnames:
+                        kwargs['format'] = 'yang'
+                    if 'in_format' in varnames:
+                        kwargs['in_format'] = 'yang'
+                    module_statement = self.context.add_module(**kwargs)
+                    if module_statement is not None:
+                        self.context.update_dependencies(module_statement)
+                except Exception:
+                    logger.exception('Got error while parsing {}'
+                                     .format(modulefile))
                 self.context.modulefile_queue.task_done()
         logger.debug('Thread {} exits'.format(current_thread().name))
 
-- 
2.43.0


From b97d97c7a757e68966cc1161f7ff87d430070a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:19 +0000
Subject: [PATCH 13/29] fix: do not share the tree when a Config is built from
 another Config

---
 src/ncdiff/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/config.py b/src/ncdiff/config.py
index 6002315..4b4d3d1 100755
--- a/src/ncdiff/config.py
+++ b/src/ncdiff/config.py
@@ -78,7 +78,7 @@ class Config(object):
             self.parser = NetconfParser(self.device, config)
             self.ele = self.parser.ele
         elif isinstance(config, Config):
-            self.ele = config.ele
+            self.ele = deepcopy(config.ele)
         else:
             raise TypeError("argument 'config' must be None, XML string, "
                             "or Element, but not '{}'"
-- 
2.43.0


From 5312e8ec923f460a3d3ef590c4a77d5acaab825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:35 +0000
Subject: [PATCH 14/29] fix: ignore white space in list entries when configs
 are compared

---
 src/ncdiff/calculator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index ecc804a..eb229a5 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -409,8 +409,8 @@ class BaseCalculator(object):
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
-            if schema_node.get("type") == "container":
-                # prevent whitespace in container to cause problems
+            if schema_node.get("type") in ("container", "list"):
+                # prevent whitespace in container or list to cause problems
                 return None
             return node.text
 
-- 
2.43.0


From e58d5fd317668938e92e72657381b19257427608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:46 +0000
Subject: [PATCH 15/29] fix: skip comments and processing instructions when a
 config is read

---
 src/ncdiff/netconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index c6098d9..6ccd498 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -40,7 +40,7 @@ def _copy_element(new_parent, element):
                                  nsmap=element.nsmap)
     if element.text is not None:
         new_child.text = element.text
-    for subelement in element:
+    for subelement in element.iterchildren(tag=etree.Element):
         _copy_element(new_child, subelement)
 
 
-- 
2.43.0


From 6a1ef8e1d2a704690a20ae6c04eaff30aa9129db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:26 +0000
Subject: [PATCH 16/29] fix: no diff between running-configs that are equal but
 have repeated lines

---
 src/ncdiff/runningconfig.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 8508937..25b4724 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -305,14 +305,18 @@ class ListDiff(object):
         # Cleanup
         diff_2 = []
         keys_before = set()
+        changed_before = set()
         for index, item in enumerate(diff_1):
             key, value, info = item
             if info == '?':
                 keys_after = set([k for k, v, i in diff_1[index+1:]])
-                if keys_before & keys_after:
+                changed_after = set([k for k, v, i in diff_1[index+1:]
+                                     if i != '?'])
+                if keys_before & changed_after or changed_before & keys_after:
                     diff_2.append((key, value, ''))
             else:
                 diff_2.append((key, value, info))
+                changed_before.add(key)
             keys_before.add(key)
 
         return diff_2
-- 
2.43.0


From d9f01e59698d58abef5d09e3a14c23d91313572d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:26 +0000
Subject: [PATCH 17/29] fix: do not lose orderless lines when other lines are
 repeated

---
 src/ncdiff/runningconfig.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index 25b4724..aef9554 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -744,9 +744,8 @@ class RunningConfigDiff(object):
                     last_anchor_2 = this_anchor_2
                 else:
                     offset_idx_1 = [i[0] for i in list1].index(line) + 1
-        for line_2 in [i for i in lines_list2[
-            offset_idx_2:
-        ] if i in lines_orderless1 and i not in inserted]:
+        for line_2 in [i for i in lines_list2
+                       if i in lines_orderless1 and i not in inserted]:
             list1.insert(offset_idx_1, removed_items[line_2])
             offset_idx_1 += 1
 
-- 
2.43.0


From fb15f4718792aa02447d755a772672be17724a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:26 +0000
Subject: [PATCH 18/29] fix: compare whole words when a CLI command is
 considered part of another

---
 src/ncdiff/runningconfig.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ncdiff/runningconfig.py b/src/ncdiff/runningconfig.py
index aef9554..6ec1323 100755
--- a/src/ncdiff/runningconfig.py
+++ b/src/ncdiff/runningconfig.py
@@ -544,9 +544,9 @@ class RunningConfigDiff(object):
                     # - service timestamps debug datetime msec
                     # + service timestamps debug datetime msec localtime
                     #   show-timezone
-                    key_len = len(k)
                     matching_positive_keys = [
-                        key for key in positive_keys if key[:key_len] == k]
+                        key for key in positive_keys
+                        if key == k or key.startswith(k + ' ')]
                     if not matching_positive_keys:
                         self.append_command('no ' + k,
                                             negative_list, positive_list)
@@ -821,9 +821,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if c2.startswith(c1 + ' '):
                         indexes.add(idx2)
-                elif c1[:len(c2)] == c2:
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx1)
         if indexes:
             for idx in sorted(indexes, reverse=True):
@@ -842,9 +842,9 @@ class RunningConfigDiff(object):
                 if c1 == c2 or len(c1) == len(c2):
                     continue
                 if len(c1) < len(c2):
-                    if c1 == c2[:len(c1)]:
+                    if c2.startswith(c1 + ' '):
                         indexes.add(idx1)
-                elif c1[:len(c2)] == c2:
+                elif c1.startswith(c2 + ' '):
                     indexes.add(idx2)
         if indexes:
             for idx in sorted(indexes, reverse=True):
-- 
2.43.0


From e9396850b8c96d78ed47675b6d23c938f8207ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:04 +0000
Subject: [PATCH 19/29] fix: leave other types of diff out of RPCs and
 notifications

ModelDiff.added, deleted and modified showed differences of any type when
they were in an RPC or a notification, as trim() did not look into them.
---
 src/ncdiff/model.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 2752bd7..0cda645 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1817,15 +1817,8 @@ class ModelDiff(object):
 
         for child in list(parent):
             diff = child.get('diff')
-            type = child.get('type')
             if diff and diff != msg:
                 parent.remove(child)
-            elif (
-                type == 'container' or
-                type == 'list' or
-                type == 'choice' or
-                type == 'case'
-            ):
-                if ModelDiff.trim(child, msg):
-                    parent.remove(child)
+            elif ModelDiff.trim(child, msg) and not diff:
+                parent.remove(child)
         return len(list(parent)) == 0
-- 
2.43.0


From 2d1f1a6bfe82cc47373c3c6e1323510c7fb896b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:09 +0000
Subject: [PATCH 20/29] fix: mark containers, lists etc. whose own definition
 changes as modified

A container that becomes a presence container, or a list whose key changes,
was in the diff without any mark, and not in ModelDiff.modified at all.
---
 src/ncdiff/model.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 0cda645..39bb005 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1594,7 +1594,8 @@ class ModelDiff(object):
                     if child.attrib['type'] in ['leaf-list', 'leaf']:
                         ModelDiff.copy_node(ret, child, 'modified')
                     else:
-                        ret_child = ModelDiff.copy_node(ret, child, '')
+                        msg = '' if peer.attrib == child.attrib else 'modified'
+                        ret_child = ModelDiff.copy_node(ret, child, msg)
                         ModelDiff.compare_nodes(peer, child, ret_child)
         for child in node1:
             peer = ModelDiff.get_peer(child.tag, node2)
@@ -1817,8 +1818,11 @@ class ModelDiff(object):
 
         for child in list(parent):
             diff = child.get('diff')
-            if diff and diff != msg:
-                parent.remove(child)
-            elif ModelDiff.trim(child, msg) and not diff:
+            empty = ModelDiff.trim(child, msg)
+            if diff == msg:
+                continue
+            if empty:
                 parent.remove(child)
+            elif diff:
+                del child.attrib['diff']
         return len(list(parent)) == 0
-- 
2.43.0


From 22d48adf66a0bb95c2a4e9b159903cfe46720673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:38 +0000
Subject: [PATCH 21/29] fix: list every identity derived from a base in the
 values of an identityref

The first identity found for a base was dropped, and a base without prefix
was looked for in the module being compiled instead of the module of the
identity. Compiling several modules listed identities repeatedly.
---
 src/ncdiff/model.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 39bb005..b878bc8 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1116,11 +1116,10 @@ class ModelCompiler(object):
                             b_idn = base_idns[1] if mn is None \
                                 else mn[0] + ':' + base_idns[1]
                         else:
-                            b_idn = module + ':' + base_idn.arg
-                        if self.identity_deps.get(b_idn) is None:
-                            self.identity_deps.setdefault(b_idn, [])
-                        else:
-                            self.identity_deps[b_idn].append(curr_idn)
+                            b_idn = m_statement.arg + ':' + base_idn.arg
+                        derived = self.identity_deps.setdefault(b_idn, [])
+                        if curr_idn not in derived:
+                            derived.append(curr_idn)
 
         for child in vm.i_children:
             if child.keyword in statements.data_definition_keywords:
-- 
2.43.0


From 703ce131f9fffbecd839188c05e978df9fcc12d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:45 +0000
Subject: [PATCH 22/29] fix: do not take a download as complete when the
 session is lost

Exceptions other than RPCError were logged by the workers, and the folder was
marked with the capabilities of the device although modules were missing, so
they were not downloaded next time either.
---
 src/ncdiff/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index b878bc8..6c3076b 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -832,6 +832,7 @@ class ModelDownloader(object):
                 os.remove(os.path.join(root, f))
 
         # download all
+        self.incomplete = False
         self.to_be_downloaded = set(self.device.models_loadable)
         self.context.dependencies = etree.Element('modules')
         for module in sorted(list(self.to_be_downloaded)):
@@ -845,8 +846,9 @@ class ModelDownloader(object):
 
         # write self.yang_capabilities
         capabilities = '\n'.join(sorted(list(self.device.server_capabilities)))
-        with open(self.yang_capabilities, 'wb') as f:
-            f.write(capabilities.encode('utf-8'))
+        if not self.incomplete:
+            with open(self.yang_capabilities, 'wb') as f:
+                f.write(capabilities.encode('utf-8'))
 
         # write dependencies
         self.context.write_dependencies()
@@ -880,6 +882,11 @@ class ModelDownloader(object):
             logger.warning("Module or submodule '{}' cannot be downloaded"
                            .format(module))
             return
+        except Exception:
+            # neither downloaded nor refused by the device, e.g. the session
+            # is lost
+            self.incomplete = True
+            raise
         if reply.ok:
             varnames = Context.add_module.__code__.co_varnames
             fname = os.path.join(self.dir_yang, module+'.yang')
-- 
2.43.0


From 5ce62e33108512479d95fba312535ffbe4cff68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:06 +0000
Subject: [PATCH 23/29] fix: module names in capabilities may have underscores
 and periods

---
 src/ncdiff/manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index a927d05..8457415 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -202,7 +202,7 @@ class ModelDevice(manager.Manager):
                         "'ietf-yang-library':\n{}".format(reply))
 
         # RFC6020 section 5.6.4
-        regexp_str = r'module=([a-zA-Z0-9-]+)\&{0,1}'
+        regexp_str = r'module=([a-zA-Z0-9_.-]+)\&{0,1}'
         modules = []
         for capability in iter(self.server_capabilities):
             match = re.search(regexp_str, capability)
-- 
2.43.0


From ae66e5b66a09a4cafee973a8f5b4520dad44edb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:06 +0000
Subject: [PATCH 24/29] fix: do not take a download as complete when a schema
 cannot be saved

---
 src/ncdiff/model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 6c3076b..305e143 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -890,8 +890,12 @@ class ModelDownloader(object):
         if reply.ok:
             varnames = Context.add_module.__code__.co_varnames
             fname = os.path.join(self.dir_yang, module+'.yang')
-            with open(fname, 'wb') as f:
-                f.write(reply.data.encode('utf-8'))
+            try:
+                with open(fname, 'wb') as f:
+                    f.write(reply.data.encode('utf-8'))
+            except OSError:
+                self.incomplete = True
+                raise
             kwargs = {
                 'ref': fname,
                 'text': reply.data,
-- 
2.43.0


From c4d87436ae6e51e4357b0f8f805a7e979afa8f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:03 +0000
Subject: [PATCH 25/29] fix: skip comments and processing instructions when a
 request is built

etree.SubElement cannot make a comment, so an edit-config or rpc with a
comment in it raised TypeError.
---
 src/ncdiff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ncdiff/__init__.py b/src/ncdiff/__init__.py
index 8b26785..144916f 100755
--- a/src/ncdiff/__init__.py
+++ b/src/ncdiff/__init__.py
@@ -98,7 +98,7 @@ if getattr(transport, 'notify', None):
 # https://bugs.launchpad.net/lxml/+bug/1424232
 def _append(self, element):
     def recreate(parent_src, parent_dst):
-        for child_src in parent_src:
+        for child_src in parent_src.iterchildren(tag=etree.Element):
             child_dst = etree.SubElement(parent_dst,
                                          child_src.tag,
                                          attrib=child_src.attrib,
-- 
2.43.0


From 8b36f6f5d6e912fc8765aa3ee80a18b0bd6cee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 26/29] fix: keep every namespace of a reply when models share
 a prefix

---
 src/ncdiff/manager.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ncdiff/manager.py b/src/ncdiff/manager.py
index 8457415..a6e115f 100755
--- a/src/ncdiff/manager.py
+++ b/src/ncdiff/manager.py
@@ -1000,11 +1000,16 @@ class ModelDevice(manager.Manager):
         urls = set()
         for node in root.iter():
             urls.update([u for p, u in node.nsmap.items()])
-        ret = {url: get_prefix(url) for url in urls}
+        ret = {}
+        for url in sorted(urls, key=lambda u: (u not in special_prefixes, u)):
+            # prefixes of different models are not necessarily different
+            prefix = get_prefix(url)
+            ret[url] = None if prefix in ret.values() else prefix
         i = 0
         for url in [url for url in ret if ret[url] is None]:
-            logger.warning('{} cannot be found in namespaces of any ' \
-                           'models'.format(url))
+            logger.warning('No unique prefix of {} can be found in namespaces '
+                           'of any models'.format(url))
+            while 'ns{:02d}'.format(i) in ret.values():
+                i += 1
             ret[url] = 'ns{:02d}'.format(i)
-            i += 1
         return {p: u for u, p in ret.items()}
-- 
2.43.0


From 3ecc3c5653e11bccbc2c90a612b2012fa35b1183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:01 +0000
Subject: [PATCH 27/29] fix: keep mandatory of anyxml and anydata in compiled
 models

---
 src/ncdiff/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index 305e143..cb44d82 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1193,6 +1193,10 @@ class ModelCompiler(object):
                 sm = child.search_one('ordered-by')
                 if sm is not None and sm.arg == 'user':
                     n.set('ordered-by', 'user')
+        elif child.keyword in ['anyxml', 'anydata']:
+            sm = child.search_one('mandatory')
+            if sm is not None and sm.arg == 'true':
+                n.set('mandatory', 'true')
 
         # Tailf annotations
         for ch in child.substmts:
-- 
2.43.0


From 005e6ad4296bfec89fbd52d594dc72ed7edbbe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 28/29] fix: compare values of types derived from identityref
 by meaning

---
 src/ncdiff/calculator.py | 14 ++++++--------
 src/ncdiff/model.py      |  8 ++++++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/ncdiff/calculator.py b/src/ncdiff/calculator.py
index eb229a5..283977d 100755
--- a/src/ncdiff/calculator.py
+++ b/src/ncdiff/calculator.py
@@ -400,12 +400,11 @@ class BaseCalculator(object):
 
         if schema_node is None:
             schema_node = self.device.get_schema_node(node)
-        if schema_node.get('datatype') is not None and \
-          (schema_node.get('datatype')[:11] == 'identityref'):
+        datatype = schema_node.get('basetype', schema_node.get('datatype'))
+        if datatype is not None and datatype[:11] == 'identityref':
             idref = IdentityRef(self.device, node)
             return idref.default
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif datatype == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device, node)
             return instanceid.default
         else:
@@ -465,13 +464,12 @@ class BaseCalculator(object):
             to_node.text = None
             return
         schema_node = self.device.get_schema_node(from_node)
-        if schema_node.get('datatype') is not None and \
-           schema_node.get('datatype')[:11] == 'identityref':
+        datatype = schema_node.get('basetype', schema_node.get('datatype'))
+        if datatype is not None and datatype[:11] == 'identityref':
             idref = IdentityRef(self.device,
                                 from_node, to_node=to_node)
             to_node.text = idref.converted
-        elif schema_node.get('datatype') is not None and \
-             schema_node.get('datatype') == 'instance-identifier':
+        elif datatype == 'instance-identifier':
             instanceid = InstanceIdentifier(self.device,
                                             from_node, to_node=to_node)
             to_node.text = instanceid.converted
diff --git a/src/ncdiff/model.py b/src/ncdiff/model.py
index cb44d82..cb16feb 100755
--- a/src/ncdiff/model.py
+++ b/src/ncdiff/model.py
@@ -1284,6 +1284,14 @@ class ModelCompiler(object):
             else:
                 datatype = sm.arg
             leaf_node.set('datatype', datatype)
+            base = sm
+            while base.i_typedef is not None:
+                base = base.i_typedef.search_one('type')
+            if (
+                base is not sm and
+                base.arg in ['identityref', 'instance-identifier']
+            ):
+                leaf_node.set('basetype', base.arg)
 
             type_values = self.type_values(sm)
             if type_values:
-- 
2.43.0


From 6b91d2d5cb53b3c88526b5fc4e85f895ff196ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:40 +0000
Subject: [PATCH 29/29] fix: key references of user-ordered list entries are
 quoted with what the key does not contain

A key with an apostrophe gave [name='bob's'], which cannot be read (applying
the delta raised SyntaxError), and an empty key gave [name='None'].
---
 src/ncdiff/netconf.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ncdiff/netconf.py b/src/ncdiff/netconf.py
index 6ccd498..1727f70 100755
--- a/src/ncdiff/netconf.py
+++ b/src/ncdiff/netconf.py
@@ -34,6 +34,12 @@ def _inserterror(direction, path, attr_name, attr_value=None):
                                .format(path, direction, attr_name))
 
 
+def _literal(text):
+    # a string of XPath has no escapes: quote it with what it does not contain
+    quote = '"' if "'" in (text or '') else "'"
+    return quote + (text or '') + quote
+
+
 def _copy_element(new_parent, element):
     new_child = etree.SubElement(new_parent, element.tag,
                                  attrib=element.attrib,
@@ -443,7 +449,8 @@ class NetconfCalculator(BaseCalculator):
                             for k, n in key_nodes.items()
                         }
                         id_list = [
-                            "[{}='{}']".format(ids[k], key_nodes[k].text)
+                            "[{}={}]".format(ids[k],
+                                             _literal(key_nodes[k].text))
                             for k in keys
                         ]
                         item.set(key_tag, ''.join(id_list))
@@ -1292,7 +1299,8 @@ class NetconfCalculator(BaseCalculator):
                                 for k, n in key_nodes.items()
                             }
                             id_list = [
-                                "[{}='{}']".format(ids[k], key_nodes[k].text)
+                                "[{}={}]".format(ids[k],
+                                                 _literal(key_nodes[k].text))
                                 for k in keys
                             ]
                             item.set(key_tag, ''.join(id_list))
-- 
2.43.0

