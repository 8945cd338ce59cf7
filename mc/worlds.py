"""Configurations with definitions whose names are prefixes of one another, used as preambles."""
from . import asa
from .asa import Asa, op, rng, service
from .canon import net


def asa_world(interfaces=True):
    m = Asa()
    m.name("192.0.2.10", "srv")
    m.name("192.0.2.32", "srv-1")
    m.name("2001:db8:9::9", "srv6")
    if interfaces:
        m.interface("Ethernet0/0", "inside", [("10.0.0.1", "255.255.255.0", None)])
        m.interface("Ethernet0/1", "inside2", [("10.0.1.1", "255.255.255.0", None)])
        m.interface("Ethernet0/2", "outside", [("198.51.100.1", "255.255.255.0", None)])
    m.time_range("tr", ("periodic daily 8:00 to 18:00", ("periodic", ("daily",), (8, 0), None, (18, 0))))
    m.time_range("tr-1", ("absolute end 10:00 1 January 2030", ("absolute", None, (2030, 1, 1, 10, 0))))
    m.object_network("net", "subnet", "10.1.0.0", 16)
    m.object_network("net1", "host", "10.2.0.1")
    m.object_network("net10", "range", "10.3.0.1", "10.3.0.6")
    m.object_network("net-1", "fqdn", "v4", "www.example.org")
    m.object_network("net6", "subnet", "2001:db8:1::", 48)
    m.object_network("x", "host", "10.9.0.1")
    m.object_service("svc", "tcp", None, op("eq", 80))
    m.object_service("svc1", "udp", rng(1000, 2000), op("gt", 53))
    m.object_service("svc-i", "icmp", icmp_type="echo", icmp_code=1)
    m.object_service("xs", "tcp", None, op("eq", 9))
    m.group("network", "grp", [("network-object host 10.4.0.1", net("10.4.0.1")), m_obj(m, "net1")])
    m.group("network", "grp1", [("network-object 10.5.0.0 255.255.0.0", net("10.5.0.0/16")), m_grp(m, "grp")])
    m.group("network", "grp-1", [("network-object 2001:db8:2::/64", net("2001:db8:2::/64"))])
    m.group("network", "xg", [("network-object host 10.9.0.2", net("10.9.0.2"))])
    m.group("port", "ports", [("port-object eq 80", ("port", "eq", 80)), ("port-object range 90 99", ("range", 90, 99))],
            proto="tcp")
    m.group("port", "ports1", [("port-object eq www", ("port", "eq", "www"))], proto="tcp-udp")
    m.group("port", "xgp", [("port-object eq 99", ("port", "eq", 99))], proto="udp")
    m.group("service", "sg", [service("tcp", None, op("eq", 443)), service("udp", op("eq", 53), None)])
    m.group("service", "sg1", [service("icmp", icmp_type="echo"), ("group-object sg", m.groups["service"]["sg"])])
    m.group("protocol", "pg", [("protocol-object tcp", ("proto", "tcp")), ("protocol-object udp", ("proto", "udp"))])
    m.group("protocol", "pg1", [("protocol-object 47", ("proto", 47)), ("group-object pg", m.groups["protocol"]["pg"])])
    m.group("icmp", "ig", [("icmp-object echo", ("icmp", "echo", None))])
    m.group("icmp", "ig1", [("icmp-object 3", ("icmp", 3, None)), ("group-object ig", m.groups["icmp"]["ig"])])
    return m


def m_obj(m, name):
    t, c = m.obj(name)
    return f"network-object {t}", c


def m_grp(m, name):
    return f"group-object {name}", m.groups["network"][name]
