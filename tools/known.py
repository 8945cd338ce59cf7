#!/usr/bin/env python3
"""Write known_findings.json: open findings, and the defects repaired by fix: commits in /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = {
    "7311e1b": ("C20", "'protocol-object' members of any text were accepted as protocols"),
    "07971dd": ("C20", "the direction of an access-group was not checked"),
    "d89229d": ("C20", "lines of a port group that are no members were silently ignored"),
    "7747811": ("C20", "the rest of a domain name that is none was taken for a comment"),
 "a80871d": ('C23', 'a separator without text made the whole configuration unreadable'),
 "73a10b6": ('C22', 'networks with host bits in the content of a url table were dropped'),
 "9dec21e": ('C23', 'separators stored in front of the rules of the file were lost'),
 "b93fd58": ('C23', 'separators of an interface were misplaced when rules of another interface are in between'),
 "0b320b9": ("C11", "network and service objects and object NAT were dropped from the configuration"),
 "1c2aa04": ("C13", "object NAT of a re-opened network object referred to an empty copy of the object"),
 "ad216c4": ("C12", "'port-object eq' members had no port"),
 "7339b17": ("C12", "port ranges with bounds of different length were rejected or compared as text"),
 "d7b610f": ("C15", "ASA interface addresses without a standby address crashed or were lost"),
 "0b5c504": ("C24", "periodic time ranges with several days were rejected"),
 "da2b9fb": ("C19", "IOS wildcard masks were read as netmasks"),
 "38e80bd": ("C18", "log-input, mobility-type and routing-type in IPv6 access lists were rejected"),
 "ef42269": ("C16", "'switchport trunk allowed vlan add' without a preceding list crashed"),
 "f291087": ("C16", "IOS static routes with a distance, name, track or tag were dropped"),
 "e558492": ("C07", "resolving rules of an access list bound to an interface crashed"),
 "434b122": ("C15", "ASA access-group bindings were not recorded in the configuration"),
 "a467324": ("C03", "the id in front of a braced set was ignored"),
 "bd5c89d": ("C04", "filter comments ending in several asterisks were rejected"),
 "5f1cfed": ("C13", "static object NAT with port translation lost the mapped port"),
 "5299874": ("C01", "wildcards did not match overlapping wildcards, and failed on IPv6"),
 "7d305ab": ("C28", "looking up a service port by name and protocol failed"),
 "014e7af": ("C21", "CRLF texts kept the carriage return in descriptions and remarks"),
 "dbc7dd3": ("C06", "collapsing network groups dropped any, IPv6 or hosts"),
 "d565614": ("C06", "the copying sort did not expand or returned nothing"),
 "7301854": ("C21", "parsing an ASA text did not return an ASA configuration"),
 "f81b931": ("C09", "remarks of one access list were attached to a rule of another"),
 "d77abc4": ("C23", "pfSense interfaces with a static address crashed"),
 "8819e12": ("C23", "pfSense interfaces were looked up by the wrong name"),
 "ca11635": ("C22", "the pfSense hostname was overwritten by the domain"),
 "2f46a27": ("C22", "pfSense urltable aliases failed with plain parser options"),
 "ce3c1e1": ("C22", "pfSense elements without a description crashed"),
 "0f79f51": ("C13", "real and mapped service of dynamic twice NAT were swapped"),
 "f9f57c6": ("C31", "commands after an ip dhcp pool section were swallowed up to the next comment"),
 "fe6d19f": ("C31", "banners ending in a caret in front of the delimiter, or delimited by a non-ASCII character, were misread"),
 "0756c9b": ("C31", "the Using ... bytes line made a configuration rejected"),
 "3ea8934": ("C10", "NAT rules of an interface whose name starts with any were rejected"),
 "9a58779": ("C25", "rendered pages showed log options as 'critical (interval, None, 300)' or 'log None'"),
 "f447cfa": ("C10", "a named network whose name starts with any-, any4- or any6- was rejected as an address"),
 "5fe245d": ("C08", "blanks after the last word of an access-list rule made it rejected"),
}
OPEN = [
]
known = os.path.join(HERE, "known_findings.json")
extra = os.path.join(HERE, "tools", "open_findings.json")
if os.path.exists(extra):
    OPEN = json.load(open(extra))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--grep=^fix:"], capture_output=True, text=True).stdout
for line in log.splitlines():
    h = line.split()[0]
    assert h in FIXED, f"not recorded: {line}"
json.dump({"findings": OPEN, "fixed": [f"fixed: property={p} {h} {w}" for h, (p, w) in FIXED.items()]}, open(known, "w"), indent=1)
