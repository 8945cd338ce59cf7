From 0b320b9c4d4e7cf1595a8a4ccdaadaa38df2a65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 01/43] fix: keep network/service objects and object NAT in the
 parsed config

The semantic action of the object rule picked the whitespace element of the
sequence instead of the object, so config.objects.* and section 2 NAT stayed
empty.
---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..8650f57 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -159,7 +159,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 1c2aa048696e2043a13b0f46039334235712fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:50 +0000
Subject: [PATCH 02/43] fix: object NAT of a re-opened network object refers to
 the defined object

---
 lib/acltk/aclSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 8650f57..8b62e61 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,8 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            # the nat may be given in a re-opened definition, the addresses belong to the initial one
+            nat.real.src.node = groups.get(ast.name, p)
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From ad216c45b6cd8629b9b916ed999519ebc1b146dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 03/43] fix: keep the port of 'port-object eq' in port groups

---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..57abcc5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..082253b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From 7339b172c354eedc65dd9cde13e0651f2008c69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 04/43] fix: compare the bounds of a port range as numbers

Ports are strings after parsing, so 'range 90 100' was rejected and
'range 100 90' accepted.
---
 lib/acltk/aclObjects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..9f9a61c 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,11 +902,11 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            in_order = int(start) < int(stop)
         except ValueError:
-            pass
+            # names
+            in_order = True
+        assert in_order, "last Port must be greater than first"
         self.start = start
         self.stop = stop
 
-- 
2.43.0


From d7b610facb0228bb10b5469eef0639993e5ba435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 05/43] fix: keep ASA interface addresses without a standby
 address

---
 lib/acltk/fwsm.bnf |  4 ++--
 lib/acltk/fwsm.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index f2206cf..3e25691 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -31,8 +31,8 @@ command
 interface_detail
 	= type:"description" WS value:TOEOL NL
 	| type:"nameif" WS value:identifier [WS] NL
-	| type:("ip" WS "address") WS value:(ip4 WS ip4) WS "standby" WS standby:ip4 [WS] NL
-	| type:("ipv6" WS "address") WS value:(ip6 "/" int) WS "standby" WS standby:ip6 [WS] NL
+	| type:("ip" WS "address") WS value:(ip4 WS ip4) [WS "standby" WS standby:ip4] [WS] NL
+	| type:("ipv6" WS "address") WS value:(ip6 "/" int) [WS "standby" WS standby:ip6] [WS] NL
 	| type:`None` ["no" WS] TOEOL NL
 	| type:`None` ()
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 57abcc5..a2dfd85 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2691,11 +2691,13 @@ class fwsmParser(Parser):
                     self._WS_()
                     self._ip4_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip4_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip4_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
@@ -2712,11 +2714,13 @@ class fwsmParser(Parser):
                     self._token('/')
                     self._int_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip6_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip6_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
-- 
2.43.0


From 0b5c5042ceaf41db6af0807917706063d8fff9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 06/43] fix: parse periodic time ranges with several days

The whitespace between the days was not consumed, and the end day was
recorded together with the whitespace as a list.
---
 lib/acltk/acl.bnf |  6 +++++-
 lib/acltk/fwsm.py | 12 +++++++++---
 lib/acltk/ios.py  | 12 +++++++++---
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 0407cb4..4614fdc 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -447,12 +447,16 @@ timedate
 	;
 
 time_range_object
-	= type:"periodic" WS days:{day_of_the_week}+ WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
+	= type:"periodic" WS days:{time_range_day}+ start:time WS "to" WS [edays:day_of_the_week WS] end:time NL
 	| type:"periodic" WS days+:("weekdays"|"weekend"|"daily") WS start:time WS "to" WS end:time NL
 	| type:"absolute" [WS "start" WS start:timedate] [WS "end" WS end:timedate] NL
 	| type:"no" WS TOEOL NL
 	;
 
+time_range_day
+	= @:day_of_the_week WS
+	;
+
 time_range
 	= 'time-range' WS name:string NL objects:{SP time_range_object}*
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index a2dfd85..ea8b4b1 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1955,10 +1955,9 @@ class fwsmParser(Parser):
                 self._WS_()
 
                 def block0():
-                    self._day_of_the_week_()
+                    self._time_range_day_()
                 self._positive_closure(block0)
                 self.name_last_node('days')
-                self._WS_()
                 self._time_()
                 self.name_last_node('start')
                 self._WS_()
@@ -1966,8 +1965,9 @@ class fwsmParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
@@ -2033,6 +2033,12 @@ class fwsmParser(Parser):
                 "'absolute' 'no' 'periodic'"
             )
 
+    @tatsumasu()
+    def _time_range_day_(self):
+        self._day_of_the_week_()
+        self.name_last_node('@')
+        self._WS_()
+
     @tatsumasu()
     def _time_range_(self):
         self._token('time-range')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 082253b..a953ab7 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1980,10 +1980,9 @@ class iosParser(Parser):
                 self._WS_()
 
                 def block0():
-                    self._day_of_the_week_()
+                    self._time_range_day_()
                 self._positive_closure(block0)
                 self.name_last_node('days')
-                self._WS_()
                 self._time_()
                 self.name_last_node('start')
                 self._WS_()
@@ -1991,8 +1990,9 @@ class iosParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
@@ -2058,6 +2058,12 @@ class iosParser(Parser):
                 "'absolute' 'no' 'periodic'"
             )
 
+    @tatsumasu()
+    def _time_range_day_(self):
+        self._day_of_the_week_()
+        self.name_last_node('@')
+        self._WS_()
+
     @tatsumasu()
     def _time_range_(self):
         self._token('time-range')
-- 
2.43.0


From da2b9fb851460c60e6a3646794feefe2554f4263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 07/43] fix: interpret IOS wildcard masks as wildcards

0.0.0.0, 255.255.255.255 and wildcards that look like a netmask were taken
for netmasks, and numbered extended access lists used netmasks throughout.
---
 lib/acltk/ios.bnf         |  8 ++++++--
 lib/acltk/ios.py          | 28 ++++++++++++++++------------
 lib/acltk/iosSemantics.py | 12 ++++++++----
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..efe2eca 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -209,6 +209,10 @@ ios_node
 	= host:ios_host [WS port:acl_port]
 	;
 
+ios_icmp_node
+	= ios_host
+	;
+
 ios_ipv6_host
     = address:ip6 "/" prefix:int
     | "host" WS address:ip6
@@ -283,8 +287,8 @@ access_list
 
 
 access_list_ip_extended_rule
-	= "access-list" WS id:access_list_ip_extended_id WS mode:acl_mode WS protocol:protocol_icmp WS src:acl_icmp_node WS dst:acl_icmp_node icmp:acl_icmp_options options:ip_access_list_extended_rule_options NL
-	| "access-list" WS id:access_list_ip_extended_id WS mode:acl_mode WS protocol:acl_protocol  WS src:node WS dst:node options:ip_access_list_extended_rule_options NL
+	= "access-list" WS id:access_list_ip_extended_id WS mode:acl_mode WS protocol:protocol_icmp WS src:ios_icmp_node WS dst:ios_icmp_node icmp:acl_icmp_options options:ip_access_list_extended_rule_options NL
+	| "access-list" WS id:access_list_ip_extended_id WS mode:acl_mode WS protocol:acl_protocol  WS src:ios_node WS dst:ios_node options:ip_access_list_extended_rule_options NL
 	;
 
 access_list_ip_extended
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index a953ab7..b914d89 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3323,6 +3323,10 @@ class iosParser(Parser):
             self._define(['port'], [])
         self._define(['host', 'port'], [])
 
+    @tatsumasu()
+    def _ios_icmp_node_(self):
+        self._ios_host_()
+
     @tatsumasu()
     def _ios_ipv6_host_(self):
         with self._choice():
@@ -3824,10 +3828,10 @@ class iosParser(Parser):
                 self._protocol_icmp_()
                 self.name_last_node('protocol')
                 self._WS_()
-                self._acl_icmp_node_()
+                self._ios_icmp_node_()
                 self.name_last_node('src')
                 self._WS_()
-                self._acl_icmp_node_()
+                self._ios_icmp_node_()
                 self.name_last_node('dst')
                 self._acl_icmp_options_()
                 self.name_last_node('icmp')
@@ -3847,10 +3851,10 @@ class iosParser(Parser):
                 self._acl_protocol_()
                 self.name_last_node('protocol')
                 self._WS_()
-                self._node_()
+                self._ios_node_()
                 self.name_last_node('src')
                 self._WS_()
-                self._node_()
+                self._ios_node_()
                 self.name_last_node('dst')
                 self._ip_access_list_extended_rule_options_()
                 self.name_last_node('options')
@@ -3883,10 +3887,10 @@ class iosParser(Parser):
                         self._protocol_icmp_()
                         self.name_last_node('protocol')
                         self._WS_()
-                        self._acl_icmp_node_()
+                        self._ios_icmp_node_()
                         self.name_last_node('src')
                         self._WS_()
-                        self._acl_icmp_node_()
+                        self._ios_icmp_node_()
                         self.name_last_node('dst')
                         self._acl_icmp_options_()
                         self.name_last_node('icmp')
@@ -3906,10 +3910,10 @@ class iosParser(Parser):
                         self._acl_protocol_()
                         self.name_last_node('protocol')
                         self._WS_()
-                        self._node_()
+                        self._ios_node_()
                         self.name_last_node('src')
                         self._WS_()
-                        self._node_()
+                        self._ios_node_()
                         self.name_last_node('dst')
                         self._ip_access_list_extended_rule_options_()
                         self.name_last_node('options')
@@ -3934,10 +3938,10 @@ class iosParser(Parser):
                         self._protocol_icmp_()
                         self.name_last_node('protocol')
                         self._WS_()
-                        self._acl_icmp_node_()
+                        self._ios_icmp_node_()
                         self.name_last_node('src')
                         self._WS_()
-                        self._acl_icmp_node_()
+                        self._ios_icmp_node_()
                         self.name_last_node('dst')
                         self._acl_icmp_options_()
                         self.name_last_node('icmp')
@@ -3957,10 +3961,10 @@ class iosParser(Parser):
                         self._acl_protocol_()
                         self.name_last_node('protocol')
                         self._WS_()
-                        self._node_()
+                        self._ios_node_()
                         self.name_last_node('src')
                         self._WS_()
-                        self._node_()
+                        self._ios_node_()
                         self.name_last_node('dst')
                         self._ip_access_list_extended_rule_options_()
                         self.name_last_node('options')
diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..25573bc 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -20,10 +20,11 @@ class iosSemantics(aclSemantics):
 
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            wildcard = int(ast.wildcard)
+            if wildcard & (wildcard + 1) == 0:
+                # the wildcard is the inverse of a netmask
+                return Network(ast.address, 32 - wildcard.bit_length())
+            return NetworkWildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
@@ -33,6 +34,9 @@ class iosSemantics(aclSemantics):
         else:
             raise ValueError(f"Unknown type {ast.type}")
 
+    def ios_icmp_node(self, ast) -> ACLNode:
+        return ACLNode(ast, None)
+
     def ios_node(self, ast) -> ACLRules:
         return ACLNode(ast.host, ast.port)
 
-- 
2.43.0


From 38e80bde66c86de3a9adb312e622c0663c33584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 08/43] fix: parse log-input, mobility-type and routing-type in
 IPv6 access lists

The shorter option names shadowed them.
---
 lib/acltk/ios.bnf |  6 +++---
 lib/acltk/ios.py  | 13 ++++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index efe2eca..b70e2bd 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -126,12 +126,12 @@ ipv6_access_list_rule_option
 	| type:"dscp" WS value:identifier
 	| type:"flow-label" WS value:identifier
 	| type:"fragments"
-	| type:"log"
 	| type:"log-input"
+	| type:"log"
+	| type:"mobility-type" WS value:int
 	| type:"mobility"
-	| type:"mobility-type" value:int
+	| type:"routing-type" [WS value:int]
 	| type:"routing"
-	| type:"routing-type" [value:int]
 	| type:"time-range" WS value:identifier
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index b914d89..8c6abeb 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2981,31 +2981,34 @@ class iosParser(Parser):
             with self._option():
                 self._token('fragments')
                 self.name_last_node('type')
-            with self._option():
-                self._token('log')
-                self.name_last_node('type')
             with self._option():
                 self._token('log-input')
                 self.name_last_node('type')
             with self._option():
-                self._token('mobility')
+                self._token('log')
                 self.name_last_node('type')
             with self._option():
                 self._token('mobility-type')
                 self.name_last_node('type')
+                self._WS_()
                 self._int_()
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
-                self._token('routing')
+                self._token('mobility')
                 self.name_last_node('type')
             with self._option():
                 self._token('routing-type')
                 self.name_last_node('type')
                 with self._optional():
+                    self._WS_()
                     self._int_()
                     self.name_last_node('value')
+                    self._define(['value'], [])
                 self._define(['type', 'value'], [])
+            with self._option():
+                self._token('routing')
+                self.name_last_node('type')
             with self._option():
                 self._token('time-range')
                 self.name_last_node('type')
-- 
2.43.0


From ef42269c064ef280486ed151971eebffae0cec01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 09/43] fix: 'switchport trunk allowed vlan add' without a
 preceding list

---
 lib/acltk/aclObjects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 9f9a61c..ee1db86 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -81,6 +81,8 @@ class Interface:
                     if (op:=i.value["value"]["op"]) == "set":
                         self.switchport.trunk = i.value["value"]["vlans"]
                     elif op == "add":
+                        if self.switchport.trunk is None:
+                            self.switchport.trunk = VLANs([])
                         self.switchport.trunk.items.extend(i.value["value"]["vlans"].items)
             elif i.type[0] == "ip":
                 if i.type[2] == "address":
-- 
2.43.0


From f291087593b83f8a7f70d179bcc0c33594067f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 10/43] fix: keep IOS static routes with a distance, name,
 track or tag

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index b70e2bd..6d8156f 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -172,7 +172,7 @@ ip_command
 
 ip_route
 	= prefix:`None` "profile" NL
-	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) NL
+	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) [WS TOEOL] NL
 	;
 
 ip_access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 8c6abeb..5fae29d 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3174,6 +3174,9 @@ class iosParser(Parser):
                             '<acl_interface_id> <ip4>'
                         )
                 self.name_last_node('gw')
+                with self._optional():
+                    self._WS_()
+                    self._TOEOL_()
                 self._NL_()
                 self._define(['gw', 'mask', 'prefix'], [])
             self._error(
-- 
2.43.0


From e5584924824acfdf8acbe585c7ffc0dcf325ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 11/43] fix: resolve rules whose access list is bound to an
 interface

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index ee1db86..8aa509a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1309,7 +1309,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From 434b122dcf4f20fdda79abdf5486fa781eb761c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 12/43] fix: record ASA access-group bindings in the config

Only the interface knew about the binding, so resolving or rendering an
access list did not lead to its interfaces.
---
 lib/acltk/aclObjects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 8aa509a..fb20226 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1242,6 +1242,7 @@ class ACLConfig:
                     if j.nameif == i.iface:
                         i.iface = j
                         j.access_groups[i.direction] = i
+                        self.access_groups[i.name].append(i)
                         break
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
-- 
2.43.0


From a467324ffe505539707f544e5f59cd1d4f333426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 13/43] fix: apply the id of a caf set to a nested set

'id A ( ip src 1.1.1.1 )' silently dropped the id.
---
 lib/acltk/cafSemantics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/cafSemantics.py b/lib/acltk/cafSemantics.py
index 8218116..bb3ff86 100644
--- a/lib/acltk/cafSemantics.py
+++ b/lib/acltk/cafSemantics.py
@@ -90,7 +90,10 @@ class RealCafSemantics:
         objects = list(filter(lambda i: i is not None, ast.objects))
 
         if len(objects) == 1 and isinstance(objects[0], cafBlock):
-            return objects[0]
+            if ast.id is None:
+                return objects[0]
+            ids = ACLRule(id=ast.id, src=ACLNode(NetworkAny()), dst=ACLNode(NetworkAny()))
+            return cafBlock(cafOpIntersect(ids, objects[0]))
         ip = []
         for i in objects:
             if "ip" in i:
-- 
2.43.0


From bd5c89d841803d7368da6da85967a7eda2c3bbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 14/43] fix: caf comments ending in several asterisks

---
 lib/acltk/caf.bnf | 2 +-
 lib/acltk/caf.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/caf.bnf b/lib/acltk/caf.bnf
index a3f1c92..711a042 100644
--- a/lib/acltk/caf.bnf
+++ b/lib/acltk/caf.bnf
@@ -15,7 +15,7 @@ comments
 	;
 
 comment
-	= "/*" ?/(?:[^*]|(?:\*[^/]))*/? "*/"
+	= "/*" ?/(?:[^*]|(?:\*(?!\/)))*/? "*/"
 	;
 
 op	= "union"
diff --git a/lib/acltk/caf.py b/lib/acltk/caf.py
index dd930d7..ea4b7ca 100644
--- a/lib/acltk/caf.py
+++ b/lib/acltk/caf.py
@@ -104,7 +104,7 @@ class cafParser(Parser):
     @tatsumasu()
     def _comment_(self):
         self._token('/*')
-        self._pattern('(?:[^*]|(?:\\*[^/]))*')
+        self._pattern('(?:[^*]|(?:\\*(?!\\/)))*')
         self._token('*/')
 
     @tatsumasu()
-- 
2.43.0


From 5f1cfedf61c7058753b2c91418b2770d07a40bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 15/43] fix: keep the mapped port of static object NAT with
 port translation

Real and mapped service both carried the real port.
---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 8b62e61..9a89e57 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -459,8 +459,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -468,7 +468,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From 529987458fbe95ad7b773446c8f4af3eb81f1c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 16/43] fix: match wildcards against wildcards and IPv6

Two wildcards recursed endlessly, and an IPv6 address could match an IPv4
wildcard by its number.
---
 lib/acltk/aclObjects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index fb20226..4ec0256 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -476,8 +476,16 @@ class NetworkWildcard:
 
     def __and__(self, other):
         if isinstance(other, NetworkHost):
+            if other.address.version != self.address.version:
+                return False
             return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
+        elif isinstance(other, NetworkWildcard):
+            if other.address.version != self.address.version:
+                return False
+            return (int(other.address) ^ int(self.address)) & ~int(other.wildcard) & ~int(self.wildcard) == 0
         elif isinstance(other, Network):
+            if other.network.version != self.address.version:
+                return False
             return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
                 other.network.netmask
             ) & ~int(self.wildcard)
-- 
2.43.0


From 7d305abae164536a7ece4d8eff0c0adc728566c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 17/43] fix: look up a service port by name and protocol

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 4ec0256..c565701 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -860,7 +860,7 @@ class PortUtil:
     @classmethod
     def getservbyname(cls, name, proto=None):
         for s in cls.services():
-            if s.name == name and (proto is None or proto.toupper() == s.protocol):
+            if s.name == name and (proto is None or proto.upper() == s.protocol):
                 return int(s.port)
         return None
 
-- 
2.43.0


From 014e7af0d66ddd9a9f4d299f0e97e7951e09baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 18/43] fix: do not keep the carriage return of CRLF configs in
 descriptions and remarks

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index c565701..7c48305 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1284,7 +1284,7 @@ class ACLConfig:
         assert isinstance(_data, str), "unexpected type {} or class {}".format(
             type(_data), _data.__class__.__qualname__
         )
-        data = _data + "\n"
+        data = _data.replace("\r\n", "\n") + "\n"
         return cls._parse(data, filename, options)
 
     @classmethod
-- 
2.43.0


From dbc7dd3d0d9a6b05aacb3de8a33e1ae0776288d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 19/43] fix: collapse network groups without changing their
 meaning

collapse() dropped any/any4/any6 members, refused hosts in place, failed on
groups with IPv4 and IPv6 members and modified the group with insitu=False.
---
 lib/acltk/aclObjects.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 7c48305..e42efca 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -618,34 +618,35 @@ class NetworkGroup(_Group):
 
         :return: collapsed NetworkGroup
         """
-        # expansion required?
-        if any(filter(lambda o: not isinstance(o, (Network, NetworkObject)), self.objects)):
-            if insitu:
+        if insitu:
+            # expansion required?
+            if any(isinstance(o, (NetworkGroup, NetworkObject)) for o in self.objects):
                 raise ValueError("expansion required")
-            obj = self.expand(insitu)
-        else:
             obj = self
+        else:
+            obj = self.expand(insitu=False)
         return obj._collapse()
 
     def _collapse(self):
-        # FIXME - remove NetworkAny
-        if any(filter(lambda o: isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)):
-            self.objects = list(
-                filter(lambda o: not isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)
-            )
-
-        # NetworkGroup is assumed to be expanded, contains only Network and NetworkHost
-        addresses = [
-            {Network: lambda x: x.network, NetworkHost: lambda x: x.address}[h.__class__](h) for h in self.objects
-        ]
+        # NetworkGroup is assumed to be expanded, contains only Network, NetworkHost and NetworkAny*
+        anys = []
+        addresses = {4: [], 6: []}
+        for h in self.objects:
+            if isinstance(h, Network):
+                addresses[h.network.version].append(h.network)
+            elif isinstance(h, NetworkHost):
+                addresses[h.address.version].append(h.address)
+            else:
+                anys.append(h)
 
-        self.objects.clear()
+        # not .clear() - the list may be shared
+        self.objects = anys
 
-        for h in ipaddress.collapse_addresses(addresses):
+        for h in itertools.chain.from_iterable(map(ipaddress.collapse_addresses, addresses.values())):
             if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
                 raise ValueError(f"unexpected type {h}")
             if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
+                h_ = Network(h.network_address, h.prefixlen)
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
-- 
2.43.0


From d565614647e33854de3a4c949e88764ada4750d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 20/43] fix: sort(insitu=False) returns a sorted, expanded copy

Protocol and service groups have no collapse(), and the result was the
members of the original group.
---
 lib/acltk/aclObjects.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index e42efca..dd4c7b7 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -314,9 +314,9 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ProtocolGroup.key_of)
 
         return obj
 
@@ -671,9 +671,9 @@ class NetworkGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
+        obj.objects = sorted(obj.objects, key=NetworkGroup.key_of)
 
         return obj
 
@@ -744,9 +744,9 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ServiceGroup.key_of)
         return obj
 
     def expand(self, insitu=True):
-- 
2.43.0


From 730185413c454f1c8118d9ef8a1366082b6a4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 21/43] fix: parsing an ASA/FWSM config returns a fwsmConfig

---
 lib/acltk/fwsmSemantics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index a984009..f4b7194 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -1,7 +1,6 @@
 from acltk.fwsm import fwsmParser as _fwsmParser
 from acltk.aclSemantics import aclSemantics, aclParser
 from acltk.aclObjects import (
-    ACLConfig,
     ACLRule,
     Names,
     Name,
@@ -19,7 +18,7 @@ from acltk.aclObjects import (
     NATRealNode,
     NetworkInterface,
 )
-from acltk.fwsmObjects import Webtype
+from acltk.fwsmObjects import Webtype, fwsmConfig
 
 
 class fwsmSemantics(aclSemantics):
@@ -203,7 +202,7 @@ class fwsmSemantics(aclSemantics):
 
     def grammar(self, ast):
         # pdb.set_trace()
-        return ACLConfig(ast)
+        return fwsmConfig(ast)
 
     def ignored(self, ast):
         ast = None
-- 
2.43.0


From f81b931a04e545debed0aaf6f680fe8cca8db22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 22/43] fix: do not attach the remarks of one access list to a
 rule of another

---
 lib/acltk/fwsm.bnf         | 2 +-
 lib/acltk/fwsm.py          | 3 ++-
 lib/acltk/fwsmSemantics.py | 4 +++-
 lib/acltk/ios.bnf          | 2 +-
 lib/acltk/ios.py           | 3 ++-
 lib/acltk/iosSemantics.py  | 8 ++++++--
 6 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index 3e25691..d4b027a 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -80,7 +80,7 @@ access_list
 
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' SP remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' SP remark:remark NL
 	;
 
 access_group
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index ea8b4b1..b398899 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -3309,13 +3309,14 @@ class fwsmParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._SP_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_group_(self):
diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index f4b7194..d7ec727 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -34,7 +34,9 @@ class fwsmSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # a remark after the last rule of the previous list is not about this rule
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
 
diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 6d8156f..ad0534a 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -269,7 +269,7 @@ access_list_ip_standard
 	;
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' WS remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' WS remark:remark NL
 	;
 
 access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 5fae29d..ad43d0f 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3797,13 +3797,14 @@ class iosParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._WS_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_list_(self):
diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 25573bc..5c8b2b8 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -117,7 +117,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # a remark after the last rule of the previous list is not about this rule
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_standard_rule(ast)
@@ -141,7 +143,9 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                # a remark after the last rule of the previous list is not about this rule
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_extended_rule(ast)
-- 
2.43.0


From d77abc4abfe00908e42fc82a050f3e2d8fd8d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 23/43] fix: parse pfSense interfaces with a static address

---
 lib/acltk/pfsenseSemantics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..af7c2ce 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,9 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        tatsu.ast.AST(
+                            **{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]}
+                        )
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From 8819e1254c70097349a0935daf2c1c33622179ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 24/43] fix: look up pfSense interfaces by their tag

Rules on the network of an optional interface were rejected, and the free
text description of one interface could redirect the rules of another.
---
 lib/acltk/pfsenseSemantics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index af7c2ce..38b442f 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -111,7 +111,7 @@ class pfsenseParser(aclParser):
             ast.append(obj)
 
             self.interfaces[obj.alias] = obj
-            self.interface_map[obj.description] = obj.alias
+            self.interface_map[i.tag] = obj.alias
 
         return ast
 
@@ -289,7 +289,7 @@ class pfsenseParser(aclParser):
                             else:
                                 port = Port("eq", port)
                     elif n.tag == "network":
-                        address = n.text
+                        address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From ca11635271d7f154da5aaa2953a27a30339b1e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 25/43] fix: keep pfSense hostname and domain apart

The name of the config ended in a dot.
---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 38b442f..0df888d 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -76,7 +76,8 @@ class pfsenseParser(aclParser):
                 domain = i.text
             elif i.tag == "hostname":
                 hostname = i.text
-        ast.append(tatsu.ast.AST(**{"hostname": f"{hostname}.{domain}"}))
+        ast.append(tatsu.ast.AST(**{"hostname": hostname}))
+        ast.append(tatsu.ast.AST(**{"domain_name": domain}))
         return ast
 
     def _parse_interfaces(self, root):
-- 
2.43.0


From 2f46a27bb559876196c6f7ab5e0819f932f4e2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 26/43] fix: parse pfSense urltable aliases with plain
 ACLParserOptions

---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 0df888d..b607710 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -39,7 +39,8 @@ log = logging.getLogger("acltk.pfsense")
 class pfsenseParser(aclParser):
     def __init__(self, options=None):
         aclParser.__init__(self)
-        self._options = options or pfsenseParserOptions()
+        # the options may be plain ACLParserOptions
+        self._options = options if isinstance(options, pfsenseParserOptions) else pfsenseParserOptions()
         self.interface_map = dict()  # optX -> alias
 
     def parse(self, data, filename="config.xml", trace=False):
-- 
2.43.0


From ce3c1e1aab5eb4ff9122b419d3cb7dc80037f14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 27/43] fix: parse pfSense interfaces, aliases and rules
 without a description

---
 lib/acltk/pfsenseSemantics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index b607710..1d88b8a 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -103,10 +103,10 @@ class pfsenseParser(aclParser):
             alias = i.tag
             if alias.startswith("opt"):
                 details.append(tatsu.ast.AST(**{"type": "description", "value": alias}))
-                alias = html.parser.unescape(values.get("descr", alias))
+                alias = html.parser.unescape(values.get("descr") or alias)
             else:
                 details.append(
-                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr", ""))})
+                    tatsu.ast.AST(**{"type": "description", "value": html.parser.unescape(values.get("descr") or "")})
                 )
 
             obj = Interface(alias=alias, details=details)
@@ -127,7 +127,7 @@ class pfsenseParser(aclParser):
             g = None
 
             # description is html escaped
-            values["descr"] = html.parser.unescape(values["descr"] or "")
+            values["descr"] = html.parser.unescape(values.get("descr") or "")
 
             if values["type"] == "host":
                 g = NetworkGroup(values["name"], values["descr"])
@@ -244,6 +244,7 @@ class pfsenseParser(aclParser):
             "log": False,
             "statetype": "keep state",
             "floating": "no",
+            "descr": "",
         }
         valueable = [
             "tracker",
-- 
2.43.0


From 5fe245d9406f4b91a08aed6a58c81249988bd774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 28/43] fix: accept blanks after the last word of an
 access-list rule

---
 lib/acltk/aclSemantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 9a89e57..bbe467e 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -359,6 +359,8 @@ class aclSemantics:
     def acl_options(self, ast):
         r = {}
         for i in ast:
+            if i is None:  # trailing blanks
+                continue
             assert i.type is None or i.type in frozenset(
                 ["log", "time-range", "inactive"]
             ), f"option {i.type} is unknown"
-- 
2.43.0


From 0f79f51cc1dfd323b4c2bed6cf0b817878475fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:18 +0000
Subject: [PATCH 29/43] fix: order of the service objects of dynamic twice NAT

---
 lib/acltk/fwsmSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index d7ec727..41e0596 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -114,8 +114,9 @@ class fwsmSemantics(aclSemantics):
                     raise ValueError("unexpected")
                 # For identity port translation, simply use the same service object for both the real and mapped ports (source and / or destination ports, depending on your configuration).
             elif ast.src["mapped"].type == "dynamic":
-                real["service"] = ast.service[2]
-                mapped["service"] = ast.service[4]
+                # dynamic NAT translates the destination service only: service mapped_obj real_obj
+                mapped["service"] = ast.service[2]
+                real["service"] = ast.service[4]
             else:
                 raise ValueError(ast.src["mapped"].type)
 
-- 
2.43.0


From 3ea89344e1092eda8c54eae66a05750c0d156900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 30/43] fix: NAT of an interface whose name starts with any

---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 4 ++++
 lib/acltk/ios.py  | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 4614fdc..79a6f69 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -279,7 +279,7 @@ network_object_nat
 	;
 
 nat_interfaces
-	= "(" real:("any"|acl_interface_id) "," mapped:("any"|acl_interface_id) ")"
+	= "(" real:("any" &","|acl_interface_id) "," mapped:("any" &")"|acl_interface_id) ")"
 	;
 
 network_nat_mapped
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index b398899..d77a970 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1057,6 +1057,8 @@ class fwsmParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(',')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
@@ -1069,6 +1071,8 @@ class fwsmParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(')')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index ad43d0f..1f92846 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1057,6 +1057,8 @@ class iosParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(',')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
@@ -1069,6 +1071,8 @@ class iosParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(')')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
-- 
2.43.0


From f9f57c6424b417f5cb31fdd9de46ec4e8ba18346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:15 +0000
Subject: [PATCH 31/43] fix: commands after an 'ip dhcp pool' section were
 swallowed

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index ad0534a..4853ecb 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -416,7 +416,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 1f92846..070bef3 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4512,11 +4512,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From fe6d19f6d0f56b943ef55d338683931792d465ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 32/43] fix: end of IOS banners after a caret and with any
 delimiter

---
 lib/acltk/iosSemantics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 5c8b2b8..f467e39 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -1,5 +1,6 @@
 from typing import Union, List
 import ipaddress
+import re
 
 from tatsu.parsing import tatsumasu
 
@@ -253,14 +254,13 @@ class iosParser(aclParser, _iosParser):
     def _delim_msg_(self):
         if self.delim == "^C":
             # not ^ or ^ not followed by C
-            self._pattern(r"([^^]|\^[^C])*")
+            self._pattern(r"([^^]|\^(?!C))*")
         else:
-            p = r"[^\x{:02x}]*".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little"))
-            self._pattern(p)
+            self._pattern(r"[^{}]*".format(re.escape(self.delim)))
 
     @tatsumasu()
     def _delim_stop_(self):
         if self.delim == "^C":
             self._token("^C")
         else:
-            self._pattern(r"\x{:02x}".format(int.from_bytes(self.delim.encode("utf-8"), byteorder="little")))
+            self._pattern(re.escape(self.delim))
-- 
2.43.0


From 0756c9b04af5d50d90e9a95f2fc874c37a44386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 33/43] fix: accept the 'Using ... bytes' line of IOS
 configurations

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 4853ecb..1a806f2 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -396,7 +396,7 @@ ignored
 	| "system" TOEOL NL
 	| "transceiver" TOEOL NL ignored_indent
 	| "username" TOEOL NL
-	| "Using" int "out of" int "bytes" NL
+	| "Using" WS int WS "out of" WS int WS "bytes" TOEOL NL
 	| "vlan" TOEOL NL ignored_indent
 	| "vpdn" TOEOL NL ignored_indent
 	| "vrf" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 070bef3..98f9f57 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4416,10 +4416,15 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('Using')
+                self._WS_()
                 self._int_()
+                self._WS_()
                 self._token('out of')
+                self._WS_()
                 self._int_()
+                self._WS_()
                 self._token('bytes')
+                self._TOEOL_()
                 self._NL_()
             with self._option():
                 self._token('vlan')
-- 
2.43.0


From b93fd58639f98aa0852e9ece822163af89945d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:49 +0000
Subject: [PATCH 34/43] fix: pfSense separators of interfaces whose rules are
 not contiguous

---
 lib/acltk/pfsenseSemantics.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 1d88b8a..ebf3489 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -216,18 +216,15 @@ class pfsenseParser(aclParser):
                             ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
                         )
 
-                ifname = None
-                last = 0
-                sidx = 0
-                for idx, rule in enumerate(ast):
-                    if rule.id != ifname:
-                        last = idx
-                        ifname = rule.id
-                    sidx = idx - last
+                # rows are counted per interface, rules of other interfaces may be in between
+                rows = collections.Counter()
+                for rule in ast:
+                    sidx = rows[rule.id]
+                    rows[rule.id] += 1
 
-                    if ifname in separators:
-                        if sidx in separators[ifname]:
-                            ast[idx].head = separators[ifname][sidx]
+                    if rule.id in separators:
+                        if sidx in separators[rule.id]:
+                            rule.head = separators[rule.id][sidx]
             else:
                 raise ValueError(i.tag)
         return ast
-- 
2.43.0


From 9dec21e8b89dc673453930da210af12e36a2bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:00 +0000
Subject: [PATCH 35/43] fix: pfSense separators in front of the rules of the
 file

---
 lib/acltk/pfsenseSemantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ebf3489..ffe29ea 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -194,7 +194,8 @@ class pfsenseParser(aclParser):
     def _parse_filter(self, root):
         ast = []
         now = datetime.datetime.now()
-        for i in list(root):
+        # separators refer to rules, wherever they are in the file
+        for i in sorted(root, key=lambda i: i.tag == "separator"):
             if i.tag == "rule":
                 rule = self._parse_filter__rule(i, now)
                 ast.append(rule)
-- 
2.43.0


From 73a10b6777c1e3e8972a3d4e803ab4d6fa7fedc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 36/43] fix: networks with host bits in pfSense url tables were
 dropped

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ffe29ea..45feac6 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -165,7 +165,7 @@ class pfsenseParser(aclParser):
                                     pass
                             else:
                                 try:
-                                    addr = ipaddress.ip_network(line)
+                                    addr = ipaddress.ip_network(line, strict=False)
                                     g.add(Network(*line.split("/")))
                                     continue
                                 except:
-- 
2.43.0


From a80871db3c132afe7df95db6afc4d78e3d9f1260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 37/43] fix: pfSense separators without text made the
 configuration unreadable

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 45feac6..bf12809 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -214,7 +214,7 @@ class pfsenseParser(aclParser):
                         # EXML - pfsense uses "fr{idx}" to denote the rows number
                         row = int(values["row"][2:])
                         separators[iface][row].append(
-                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"]))
+                            ACLCaption(bg=values["color"], text=html.parser.unescape(values["text"] or ""))
                         )
 
                 # rows are counted per interface, rules of other interfaces may be in between
-- 
2.43.0


From 7311e1ba3a7c80a3c21dcb294da5d95b2563d66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:01 +0000
Subject: [PATCH 38/43] fix: reject protocol-object lines that name no protocol

---
 lib/acltk/acl.bnf         |  2 +-
 lib/acltk/aclSemantics.py |  2 +-
 lib/acltk/fwsm.py         | 11 ++++++++++-
 lib/acltk/ios.py          | 11 ++++++++++-
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 79a6f69..adaaae8 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -407,7 +407,7 @@ icmp_group_object
 
 
 protocol_group_object
-	= type:"protocol-object" WS name:obj_name NL
+	= type:"protocol-object" WS name:(protocol_code|protocol_int) NL
 	| type:"group-object" WS group:acl_object_group_protocol NL
 	| type:`None`
 	;
diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index bbe467e..2df43d3 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -295,7 +295,7 @@ class aclSemantics:
     def protocol_group_object(self, ast):
         assert ast.type is not None, "object type is None"
         if ast.type == "protocol-object":
-            return Protocol(ast.name)
+            return ast.name
         elif ast.type == "group-object":
             return ast.group
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index d77a970..3216cc5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1829,7 +1829,16 @@ class fwsmParser(Parser):
                 self._token('protocol-object')
                 self.name_last_node('type')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('name')
                 self._NL_()
                 self._define(['name', 'type'], [])
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 98f9f57..faf002b 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1854,7 +1854,16 @@ class iosParser(Parser):
                 self._token('protocol-object')
                 self.name_last_node('type')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._protocol_code_()
+                        with self._option():
+                            self._protocol_int_()
+                        self._error(
+                            'expecting one of: '
+                            '<protocol_code> <protocol_int>'
+                        )
                 self.name_last_node('name')
                 self._NL_()
                 self._define(['name', 'type'], [])
-- 
2.43.0


From 07971dd938767c9fc3a631f62e0840e874350397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 39/43] fix: reject access-group lines whose direction is
 neither in nor out

---
 lib/acltk/fwsm.bnf |  2 +-
 lib/acltk/fwsm.py  | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index d4b027a..b800d97 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -84,7 +84,7 @@ access_list_remark
 	;
 
 access_group
-	= "access-group" WS name:obj_name WS direction:obj_name WS type:"interface" WS iface:obj_name [WS] NL
+	= "access-group" WS name:obj_name WS direction:("in"|"out") WS type:"interface" WS iface:obj_name [WS] NL
 	| "access-group" WS name:obj_name WS type:"global" [WS] NL
 	;
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 3216cc5..d76ccb1 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -3340,7 +3340,16 @@ class fwsmParser(Parser):
                 self._obj_name_()
                 self.name_last_node('name')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._token('in')
+                        with self._option():
+                            self._token('out')
+                        self._error(
+                            'expecting one of: '
+                            "'in' 'out'"
+                        )
                 self.name_last_node('direction')
                 self._WS_()
                 self._token('interface')
-- 
2.43.0


From d89229dae1b3af48a0ad0f63343c330522c0eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:08 +0000
Subject: [PATCH 40/43] fix: reject lines of a port group which are no members

---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 2df43d3..9897725 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -283,7 +283,7 @@ class aclSemantics:
             return Port(ast.op, ast.port)
 
     def port_group_object(self, ast):
-        assert ast is not None, "object is None"
+        assert ast.type is not None, "object type is None"
         if ast.type == "port-object":
             if ast.op == "range":
                 return PortRange(ast.begin, ast.end)
-- 
2.43.0


From 77478110dbb5a9a740fe8b7ae6a4d6fe919f2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:22 +0000
Subject: [PATCH 41/43] fix: do not take the rest of a domain name for a
 comment

---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 1 +
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 3 +++
 4 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index adaaae8..cfd0100 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -15,7 +15,7 @@ hostname
 	;
 
 domain_name
-	= "domain-name" WS domain_name:identifier
+	= "domain-name" WS domain_name:identifier NL
 	;
 
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index d76ccb1..816acf9 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -125,6 +125,7 @@ class fwsmParser(Parser):
         self._WS_()
         self._identifier_()
         self.name_last_node('domain_name')
+        self._NL_()
         self._define(['domain_name'], [])
 
     @tatsumasu()
diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 1a806f2..ba6f0a4 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -160,7 +160,7 @@ ip
 
 ip_command
 	= cmd:"access-list" WS object:ip_access_list
-	| cmd:"domain name" WS name:obj_name
+	| cmd:"domain name" WS ~ name:obj_name NL
 	| cmd:"route" WS route:ip_route
 	| cmd:`None` ip_ignored
 	;
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index faf002b..c4e2846 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -125,6 +125,7 @@ class iosParser(Parser):
         self._WS_()
         self._identifier_()
         self.name_last_node('domain_name')
+        self._NL_()
         self._define(['domain_name'], [])
 
     @tatsumasu()
@@ -3130,8 +3131,10 @@ class iosParser(Parser):
                 self._token('domain name')
                 self.name_last_node('cmd')
                 self._WS_()
+                self._cut()
                 self._obj_name_()
                 self.name_last_node('name')
+                self._NL_()
                 self._define(['cmd', 'name'], [])
             with self._option():
                 self._token('route')
-- 
2.43.0


From 9a58779b74c1747c923532d21486e23f52e8d83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 42/43] fix: options of log as plain words

---
 lib/acltk/aclSemantics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 9897725..e2fa3b0 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -356,6 +356,10 @@ class aclSemantics:
     def node(self, ast):
         return ACLNode(ast.host, ast.port)
 
+    def acl_option_log_option(self, ast):
+        # level, "interval" secs or nothing at all
+        return [i for i in (ast if isinstance(ast, tuple) else (ast,)) if i is not None]
+
     def acl_options(self, ast):
         r = {}
         for i in ast:
@@ -367,7 +371,7 @@ class aclSemantics:
             if i.type is None:
                 continue
             elif i.type == "log":
-                r[i.type] = ACLRuleOptionLog(i.options)
+                r[i.type] = ACLRuleOptionLog([word for words in i.options for word in words])
             elif i.type == "time-range":
                 r[i.type] = i.option
             elif i.type == "inactive":
-- 
2.43.0


From f447cfaa46bf9d5538ea69541500ddd90472fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:22 +0000
Subject: [PATCH 43/43] fix: a named network whose name starts with any- is not
 the keyword any

---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 12 ++++++++++++
 lib/acltk/ios.py  | 12 ++++++++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index cfd0100..4a0e42f 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -163,7 +163,7 @@ acl_internal
 acl_host
 	= type:("host"|"ip") WS address:(acl_name|ip4|ip6)
 	| type:"interface" WS name:identifier
-	| type:("any"|"any4"|"any6")
+	| type:("any"|"any4"|"any6") &(WS|NL)
 	| type:"object" WS object:acl_object_network
 	| type:"object-group" WS group:acl_object_group_network
 	| type:`network` address:(acl_name_ws|ip4) WS netmask:ip4
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 816acf9..1569677 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -579,6 +579,18 @@ class fwsmParser(Parser):
                             "'any' 'any4' 'any6'"
                         )
                 self.name_last_node('type')
+                with self._if():
+                    with self._group():
+                        with self._choice():
+                            with self._option():
+                                self._WS_()
+                            with self._option():
+                                self._NL_()
+                            self._error(
+                                'expecting one of: '
+                                '<NL> <WS>'
+                            )
+                self._define(['type'], [])
             with self._option():
                 self._token('object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index c4e2846..cbe5d96 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -579,6 +579,18 @@ class iosParser(Parser):
                             "'any' 'any4' 'any6'"
                         )
                 self.name_last_node('type')
+                with self._if():
+                    with self._group():
+                        with self._choice():
+                            with self._option():
+                                self._WS_()
+                            with self._option():
+                                self._NL_()
+                            self._error(
+                                'expecting one of: '
+                                '<NL> <WS>'
+                            )
+                self._define(['type'], [])
             with self._option():
                 self._token('object')
                 self.name_last_node('type')
-- 
2.43.0

