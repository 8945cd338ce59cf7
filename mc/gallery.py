"""Every construct of the configuration languages, as blocks of text with the blocks they refer to.

A configuration is any set of blocks which contains what its members refer to, in the order of the
table.  The texts are well-formed; what they mean is judged by the checks of the single constructs.
"""
ASA = {}
IOS = {}
PF = {}


def _block(table, name, text, *needs):
    table[name] = (text, needs)


def a(name, text, *needs):
    _block(ASA, name, text, *needs)


a("version", "ASA Version 9.1(2)\n")
a("hostname", "hostname fw\n")
a("domain", "domain-name example.org\n")
a("names", "names\n")
a("name srv", "name 192.0.2.10 srv\n")
a("name net", "name 192.0.2.32 net-a description the net\n")
a("name six", "name 2001:db8:9::9 six\n")
a("if inside", "interface Ethernet0/0\n nameif inside\n security-level 100\n ip address 10.0.0.1 255.255.255.0 standby 10.0.0.2\n")
a("if outside", "interface Ethernet0/1\n description to the world\n nameif outside\n ip address 198.51.100.1 255.255.255.0\n ipv6 address 2001:db8::1/64\n")
a("if shut", "interface Ethernet0/2\n shutdown\n no nameif\n no ip address\n")
a("time periodic", "time-range work\n periodic weekdays 8:00 to 18:00\n")
a("time absolute", "time-range once\n absolute start 8:00 1 January 2020 end 9:30 2 February 2021\n")
a("time both", "time-range both\n absolute end 10:00 1 March 2030\n periodic Monday 22:00 to Tuesday 6:00\n")
a("obj host", "object network o-host\n host 10.2.0.1\n")
a("obj host6", "object network o-host6\n host 2001:db8:1::1\n description six\n")
a("obj subnet", "object network o-net\n subnet 10.1.0.0 255.255.0.0\n description a net\n")
a("obj subnet6", "object network o-net6\n subnet 2001:db8:2::/48\n")
a("obj range", "object network o-range\n range 10.3.0.1 10.3.0.6\n")
a("obj fqdn", "object network o-fqdn\n fqdn v4 www.example.org\n")
a("obj fqdn any", "object network o-fqdn2\n fqdn www.example.net\n")
a("svc tcp", "object service s-tcp\n service tcp destination eq www\n")
a("svc udp", "object service s-udp\n service udp source range 1000 2000 destination gt 53\n description both\n")
a("svc icmp", "object service s-icmp\n service icmp echo 0\n")
a("svc number", "object service s-47\n service 47\n")
a("grp net", "object-group network g-net\n description group\n network-object host 10.4.0.1\n network-object 10.5.0.0 255.255.0.0\n network-object 2001:db8:3::/64\n network-object host 2001:db8:3::1\n")
a("grp obj", "object-group network g-obj\n network-object object o-host\n group-object g-net\n", "obj host", "grp net")
a("grp name", "object-group network g-name\n network-object host srv\n network-object net-a 255.255.255.224\n", "name srv", "name net")
a("grp port", "object-group service g-port tcp\n port-object eq www\n port-object range 90 99\n")
a("grp port2", "object-group service g-port2 tcp-udp\n description more\n port-object eq domain\n group-object g-port\n", "grp port")
a("grp svc", "object-group service g-svc\n service-object tcp destination eq 443\n service-object udp source eq 53\n service-object icmp echo\n service-object 50\n service-object object s-tcp\n", "svc tcp")
a("grp svc2", "object-group service g-svc2\n description more\n service-object tcp-udp destination range 100 200\n group-object g-svc\n", "grp svc")
a("grp proto", "object-group protocol g-proto\n protocol-object tcp\n protocol-object 47\n")
a("grp proto2", "object-group protocol g-proto2\n protocol-object udp\n group-object g-proto\n", "grp proto")
a("grp icmp", "object-group icmp-type g-icmp\n icmp-object echo\n icmp-object 3\n")
a("grp icmp2", "object-group icmp-type g-icmp2\n icmp-object echo-reply\n group-object g-icmp\n", "grp icmp")
a("rule ip", "access-list A extended permit ip any any\n")
a("rule host", "access-list A extended deny ip host 10.0.0.1 10.2.0.0 255.255.0.0\n")
a("rule v6", "access-list A extended permit ip host 2001:db8::5 2001:db8:1::/48\n")
a("rule any46", "access-list A extended permit ip any4 any6\n")
a("rule ports", "access-list A extended permit tcp any eq 1024 host 10.0.0.1 range 80 90 log\n")
a("rule names", "access-list A extended permit udp any neq domain any lt 1024 inactive\n")
a("rule name", "access-list B extended permit tcp host srv net-a 255.255.255.224 eq https\n", "name srv", "name net")
a("rule obj", "access-list B extended permit tcp object o-host object-group g-net eq 22\n", "obj host", "grp net")
a("rule obj2", "access-list B extended deny udp object-group g-obj object-group g-port2 object o-net\n", "grp obj", "grp port2", "obj subnet")
a("rule svc", "access-list B extended permit object s-tcp any any\n", "svc tcp")
a("rule svcgrp", "access-list B extended permit object-group g-svc2 any object o-range\n", "grp svc2", "obj range")
a("rule proto", "access-list C extended permit object-group g-proto2 any any\n", "grp proto2")
a("rule number", "access-list C extended permit 47 any any\n")
a("rule icmp", "access-list C extended permit icmp any any echo 0\n")
a("rule icmpgrp", "access-list C extended permit icmp any host 10.0.0.9 object-group g-icmp2\n", "grp icmp2")
a("rule icmp log", "access-list C extended deny icmp any any log critical interval 300\n")
a("rule time", "access-list C extended permit ip any any log time-range work inactive\n", "time periodic")
a("rule time2", "access-list C extended permit tcp any any eq 25 time-range both\n", "time both")
a("rule iface", "access-list C extended permit tcp any interface outside eq ssh\n", "if outside")
a("rule remark", "access-list D remark first\naccess-list D remark second one\naccess-list D extended permit ip any any\n")
a("rule std", "access-list S standard permit 10.0.0.0 255.0.0.0\n")
a("rule std host", "access-list S standard deny host 10.0.0.1\n")
a("rule web", "access-list W webtype permit url http://www.example.org/ log default\n")
a("rule web tcp", "access-list W webtype deny tcp host 10.0.0.1 eq 80\n")
a("rule ether", "access-list E ethertype permit any\n")
a("access-group", "access-group A in interface inside\n", "if inside", "rule ip")
a("access-group out", "access-group C out interface outside\n", "if outside", "rule iface")
a("nat obj", "object network n-obj\n host 10.77.0.1\n nat (inside,outside) static o-host service tcp www 8080\n", "if inside", "if outside", "obj host")
a("nat obj dyn", "object network n-dyn\n subnet 10.78.0.0 255.255.0.0\n nat (inside,outside) dynamic g-net interface dns\n", "if inside", "if outside", "grp net")
a("nat twice", "nat (inside,outside) source static o-net o-host destination static o-range o-net description first\n", "if inside", "if outside", "obj subnet", "obj host", "obj range")
a("nat pool", "nat (inside,outside) source dynamic g-net pat-pool o-range interface\n", "if inside", "if outside", "grp net", "obj range")
a("nat svc", "nat (any,outside) source static o-net o-host service s-tcp s-tcp\n", "if outside", "obj subnet", "obj host", "svc tcp")
a("nat after", "nat (inside,outside) after-auto source dynamic any interface\n", "if inside", "if outside")
a("ignored", "route outside 0.0.0.0 0.0.0.0 198.51.100.254 1\n")
a("ignored block", "class-map c\n match any\n!\n")


def i(name, text, *needs):
    _block(IOS, name, text, *needs)


i("version", "version 15.1\n")
i("hostname", "hostname rt\n")
i("domain", "ip domain name example.org\n")
i("if plain", "interface GigabitEthernet0/1\n description up\n ip address 10.0.0.1 255.255.255.0\n ip address 10.0.9.1 255.255.255.0 secondary\n")
i("if acl", "interface GigabitEthernet0/2\n ip address 10.0.1.1 255.255.255.0\n ip access-group 101 in\n ip access-group STD out\n")
i("if six", "interface Vlan10\n ipv6 address 2001:db8::1/64\n ipv6 traffic-filter SIX in\n no shutdown\n")
i("if switch", "interface GigabitEthernet0/3\n switchport mode trunk\n switchport trunk allowed vlan 1-3,5\n switchport trunk allowed vlan add 7,9-11\n")
i("grp net", "object-group network g-net\n description nets\n host 10.1.0.1\n 10.2.0.0 255.255.0.0\n")
i("grp net2", "object-group network g-net2\n group-object g-net\n host 10.3.0.1\n", "grp net")
i("grp svc", "object-group service g-svc\n tcp destination eq 80\n udp source gt 1023 destination eq 53\n icmp echo\n 47\n")
i("grp svc2", "object-group service g-svc2\n group-object g-svc\n tcp-udp destination eq domain\n", "grp svc")
i("ext", "ip access-list extended EXT\n remark one\n remark two\n permit ip any any\n 20 deny tcp host 10.0.0.1 eq 80 10.0.0.0 0.0.0.255 range 1 1023 log\n permit icmp any any echo\n")
i("ext opts", "ip access-list extended OPT\n permit tcp any any established\n permit udp any gt 1023 any eq domain time-range work\n deny ip any any fragments\n permit ip 10.0.0.1 0.0.255.0 any dscp ef\n")
i("ext grp", "ip access-list extended GRP\n permit ip object-group g-net2 any\n permit object-group g-svc2 any object-group g-net\n", "grp net2", "grp svc2")
i("std", "ip access-list standard STD\n permit 10.0.0.0 0.0.0.255\n remark a host\n deny host 10.1.1.1 log\n 30 permit any\n")
i("num std", "access-list 7 remark numbered\naccess-list 7 permit 10.0.0.0 0.255.255.255\naccess-list 7 deny any log\n")
i("num ext", "access-list 101 permit tcp any host 10.1.1.1 eq www\naccess-list 101 remark rest\naccess-list 101 deny ip 10.0.0.0 0.0.255.255 any log-input\n")
i("num icmp", "access-list 102 permit icmp any any 3 4\naccess-list 102 permit 47 any any\n")
i("six", "ipv6 access-list SIX\n sequence 10 permit tcp any host 2001:db8::2 eq 443 log\n sequence 20 deny ipv6 2001:db8:1::/48 any fragments\n sequence 30 permit icmp any any nd-ns\n")
i("route", "ip route 10.9.0.0 255.255.0.0 10.0.0.254\nip route 0.0.0.0 0.0.0.0 GigabitEthernet0/1\n", "if plain")
i("banner", "banner motd ^C\nhello\naccess-list 101 permit ip any any\n^C\n")
i("ignored", "ip cef\nlogging 10.0.0.9\nline-less\n".replace("line-less\n", "!\n"))
i("ignored block", "router ospf 1\n network 10.0.0.0 0.255.255.255 area 0\n!\n")

PF_FRAME = "<pfsense><system><hostname>{h}</hostname><domain>{d}</domain></system><aliases>{a}</aliases><interfaces>{i}</interfaces><filter>{f}</filter></pfsense>\n"


def p(name, where, text, *needs):
    PF[name] = (where, text, needs)


p("al host", "a", "<alias><name>hosts</name><type>host</type><address>10.0.0.1 2001:db8::1</address><descr>two &amp;lt; hosts</descr></alias>")
p("al net", "a", "<alias><name>nets</name><type>network</type><address>10.1.0.0/16 2001:db8::/32</address><descr/></alias>")
p("al url", "a", "<alias><name>url</name><type>urltable</type><url>http://127.0.0.1/x</url><descr/></alias>")
p("al port", "a", "<alias><name>ports</name><type>port</type><address>80 90:99</address><descr/></alias>")
p("al empty", "a", "<alias><name>empty</name><type>host</type><address/><descr/></alias>")
p("wan", "i", "<wan><if>em0</if><descr>WAN</descr><ipaddr>dhcp</ipaddr></wan>")
p("lan", "i", "<lan><if>em1</if><ipaddr>10.0.0.1</ipaddr><subnet>24</subnet></lan>")
p("opt1", "i", "<opt1><if>em2</if><descr>DMZ</descr></opt1>")


def _rule(inner, interface="wan", extra=""):
    return f"<rule><type>pass</type><interface>{interface}</interface>{extra}{inner}<descr>text</descr></rule>"


p("r any", "f", _rule("<source><any/></source><destination><any/></destination>"), "wan")
p("r alias", "f", _rule("<protocol>tcp</protocol><source><address>hosts</address></source><destination><address>nets</address><port>ports</port></destination>"),
  "wan", "al host", "al net", "al port")
p("r plain", "f", _rule("<protocol>tcp/udp</protocol><source><address>10.9.0.0/16</address><port>1-1023</port></source><destination><address>10.9.9.9</address><port>53</port></destination>", "lan"), "lan")
p("r net", "f", _rule("<source><network>opt1</network></source><destination><network>lan</network></destination>", "opt1"), "opt1", "lan")
p("r icmp", "f", _rule("<protocol>icmp</protocol><icmptype>echoreq</icmptype><source><any/></source><destination><any/></destination>", "lan", "<log/><disabled/>"), "lan")
p("r float", "f", _rule("<source><any/></source><destination><any/></destination>", "wan,opt1", "<floating>yes</floating><direction>in</direction><statetype>none</statetype>"), "wan", "opt1")
p("sep", "f", "<separator><wan><sep0><row>fr0</row><text>top</text><color>bg-info</color><if>wan</if></sep0></wan></separator>", "wan")

TABLES = {"asa": ASA, "ios": IOS, "pf": PF}


def close(dialect, names):
    t = TABLES[dialect]
    todo, have = list(names), set()
    while todo:
        n = todo.pop()
        if n not in have:
            have.add(n)
            todo += t[n][-1]
    return [n for n in t if n in have]


def config(dialect, names=None):
    """Text of the configuration with these blocks (default: all) and what they refer to."""
    t = TABLES[dialect]
    chosen = list(t) if names is None else close(dialect, names)
    if dialect == "pf":
        part = lambda k: "".join(t[n][1] for n in chosen if t[n][0] == k)
        return PF_FRAME.format(h="pf", d="example.org", a=part("a"), i=part("i"), f=part("f"))
    return "".join(t[n][0] for n in chosen)


def names(dialect):
    return list(TABLES[dialect])
