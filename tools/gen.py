#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from the one table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O, S = "lib/acltk/aclObjects.py", "lib/acltk/aclSemantics.py"
FW, FS, FO = "lib/acltk/fwsm.py", "lib/acltk/fwsmSemantics.py", "lib/acltk/fwsmObjects.py"
IOS, IS, IO = "lib/acltk/ios.py", "lib/acltk/iosSemantics.py", "lib/acltk/iosObjects.py"
PS, PO = "lib/acltk/pfsenseSemantics.py", "lib/acltk/pfsenseObjects.py"
CF, CS, CO = "lib/acltk/caf.py", "lib/acltk/cafSemantics.py", "lib/acltk/cafObjects.py"
BNF = ["lib/acltk/acl.bnf", "lib/acltk/ip.bnf"]
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note))


TRACE = "explicit-state model of the language; every event sequence within the bounds is replayed on the parser"
SMALL = "Exhaustive within the bounds in the evidence file; nothing is claimed beyond them. "

prop("C01", "Two addresses match exactly when they have an address in common",
     "Two address expressions of a rule, object, group or filter match each other if and only if some IP address belongs "
     "to both, whichever of the two is asked: hosts, networks, discontiguous wildcards, any, any4, any6, interfaces, "
     "fqdn objects (any address of their version), ranges, and objects and groups nested to any depth. IPv4 and IPv6 never match each other except through "
     "any, an interface or an unversioned fqdn.",
     ["inputs"], "all pairs of address expressions",
     "the tests intersect some dozens of hand picked pairs; a wrong bit in a prefix or wildcard comparison shows only for particular pairs",
     [O], [{"name": "intersection operator of every address class", "where": f"{O} __and__"}],
     "exhaustive enumeration of pairs of address terms against a reference of ternary bit patterns",
     SMALL + "All ternary patterns of a 3 (4) bit window at several bit positions, every spelling, all pairs, both argument orders; the reference is itself checked against enumeration of a 5 bit address space.")
prop("C02", "A filter leaf selects exactly the rules its id and addresses match",
     "A filter of an id and of source and destination addresses selects exactly the rules whose access list id equals the id (or matches the shell pattern "
     "between slashes, case sensitive and as a whole), and whose source and destination each match at least one of the addresses given for that direction, a direction without addresses matching everything. "
     "ANY, ANY4 and ANY6 select only rules which say any, any4 or any6 themselves or through a group.",
     ["inputs", "configurations"], "all filter leaves over all rules",
     "the tests run a handful of filters on one configuration; patterns with brackets, lists of addresses per direction, repeated clauses and the ANY variants combine in ways they do not sample",
     [CS, CO, O], [{"name": "filter leaf to rule template", "where": f"{CS} set, net, network"}, {"name": "id pattern and address test", "where": f"{O} ACLRule.__and__"}],
     "exhaustive enumeration of filter texts, run on configurations with all combinations of address terms, against a reference evaluator",
     SMALL + "The reference reads and evaluates filters independently of the implementation.")
prop("C03", "Filter set operations mean set union, intersection and difference",
     "union, intersect and except combine selections as the set operations; intersect binds tighter than union and except, which apply from left to right; parentheses override this. "
     "Redundant parentheses, comments and line breaks never change the selection, and an id in front of a parenthesised set intersects it.",
     ["programs"], "all filter expressions over all selections",
     "operator precedence and associativity need expressions whose wrong grouping gives a different set for some rule; the tests have few of them",
     [CS, CO], [{"name": "operator folding", "where": f"{CS} expr, expr_r, set"}, {"name": "set operations", "where": f"{CO} cafOp*.run"}],
     "exhaustive enumeration of expression trees over a universe with one rule per combination of operand memberships",
     SMALL + "All bracketings, all operator sequences; the rule universe contains every membership vector, so two different set functions are always told apart.")
prop("C04", "Exactly the filter language is accepted",
     "A text is accepted as a filter only if it is a sentence of the documented filter language, and every sentence of that language is accepted and means what the language says. "
     "A malformed filter raises an error instead of selecting rules.",
     ["inputs"], "all filter texts",
     "the tests have positive examples only; that nothing else is accepted is about all other texts",
     ["lib/acltk/caf.bnf", CF, CS], [{"name": "filter parser", "where": f"{CF} cafParser"}],
     "exhaustive enumeration of all token strings up to a length, judged by a reference recogniser",
     SMALL + "Texts the documentation leaves open (an empty operand, two sets without operator, a comment inside a clause) may be rejected or have the obvious meaning.")
prop("C05", "Reading operations never change what a configuration selects",
     "Filtering, resolving, rendering, pickling, printing and copying expand/sort/collapse of groups leave a configuration as it is: whatever sequence of them ran before, every rule, object and group means the same and the same filter selects the same rules.",
     ["histories"], "all sequences of operations on one configuration",
     "each test runs one operation on a fresh configuration; state leaking from one operation into the next needs sequences",
     [O, CO, "examples/render/static.py"], [{"name": "operations on configurations", "where": f"{O} ACLConfig.filter, resolve, _Group.expand/sort/collapse"}],
     "breadth first search over operation sequences on the real objects, states compared by a canonical form",
     SMALL + "The canonical form covers rules, objects, groups, interfaces, NAT and the selections of a set of probe filters.")
prop("C06", "Expanding, sorting and collapsing a group preserves its meaning",
     "Expanding, sorting or collapsing a group of any kind, in place or as a copy, in any order and number, leaves the set of things the group stands for unchanged, and the copying forms do not touch the original. "
     "Expanding leaves no group or object inside, sorting keeps every member and puts plain addresses of one version and numeric ports and protocols in ascending order, collapsing yields the minimal list of networks.",
     ["histories", "inputs"], "all groups and all sequences of operations on them",
     "the tests collapse one IPv4 group; losing a member needs particular combinations of nesting, overlap, versions and order of operations",
     [O], [{"name": "group operations", "where": f"{O} _Group, NetworkGroup, ServiceGroup, PortGroup, ProtocolGroup"}],
     "explicit-state search over operation sequences from all small groups, on the real objects, with a reference set semantics",
     SMALL + "Meaning is the set of addresses (interval arithmetic), services, ports or protocols.")
prop("C07", "Resolving a selection yields exactly what it refers to",
     "Resolving a set of rules and NAT rules returns the set together with everything these refer to, directly or through groups (objects, groups, their members, ports, protocols, ICMP types, time ranges, names, interfaces bound to the access list), and nothing else of the configuration.",
     ["inputs", "configurations"], "all selections of all configurations",
     "the closure depends on the reference graph; tests look at one configuration through rendered output",
     [O], [{"name": "reference closure", "where": f"{O} ACLConfig.resolve"}],
     "exhaustive enumeration of subsets of rules over configurations that exercise every kind of reference, against a reachability reference",
     SMALL)
prop("C08", "Every ASA access-list rule is read as written",
     "For every well-formed extended, standard or webtype access-list line, the rule has the id, action, protocol, source, destination, ports, ICMP type and code, and options the line states, with references bound to the definitions they name, and nothing else.",
     ["inputs"], "all access-list lines of the supported grammar",
     "the tests parse one fixed file and mostly only check that it parses; a keyword that is swallowed by a prefix of it or a field lost in one combination goes unnoticed",
     [*BNF, "lib/acltk/fwsm.bnf", FW, FS, S], [{"name": "access-list rules", "where": "lib/acltk/fwsm.bnf access_list_rule_*, lib/acltk/acl.bnf acl_*"}, {"name": "rule construction", "where": f"{FS} access_list*"}],
     TRACE, SMALL + "Every field value with every context, all pairs of field alternatives (thorough: all triples of kinds).")
prop("C09", "ASA rules, remarks and ignored commands keep order and identity",
     "However access-list rules, remarks, ignored commands and other definitions are interleaved, the rules come out in the order written, each with exactly the remarks of its own access list immediately before it; ignored commands change nothing.",
     ["histories"], "all sequences of commands",
     "what a remark attaches to depends on the sequence of commands around it; the tests have few sequences",
     ["lib/acltk/fwsm.bnf", FW, FS, O], [{"name": "remark attachment", "where": f"{FS} access_list"}, {"name": "ignored commands", "where": "lib/acltk/fwsm.bnf ignored, unmatched"}],
     TRACE, SMALL)
prop("C10", "A reference is bound to the definition of exactly that name",
     "Wherever a configuration names a network or service object, a group, a named host, a time range or an interface, the reference is bound to the earlier definition of exactly this name and kind, also if names are prefixes of one another, and a reference to a name that is not defined is rejected.",
     ["configurations"], "all sets of defined names and all references",
     "binding depends on the set of all names defined so far; prefix collisions are rare in the test file",
     [S, "lib/acltk/acl.bnf"], [{"name": "name lookup while parsing", "where": f"{S} aclParser._learn, __acl_internal_ids, acl_*"}],
     TRACE, SMALL + "All subsets and definition orders of a family of colliding names, all reference kinds.")
prop("C11", "Network objects and groups hold exactly the addresses written",
     "Every network object, network group and named host holds exactly the addresses, members, order and description of its definition: hosts, subnets, ranges as their exact cover, fqdn with their version limit, nested groups and objects by reference.",
     ["inputs"], "all definitions of the supported grammar (ASA and IOS)",
     "the tests check few definitions; ranges have a different cover for every pair of ends",
     [O, S, "lib/acltk/acl.bnf"], [{"name": "object and group construction", "where": f"{S} object_type, object_group_type, network_group_object"}, {"name": "NetworkObject", "where": f"{O} NetworkObject"}],
     TRACE, SMALL)
prop("C12", "Service, port, protocol and ICMP definitions are read as written",
     "Every service object and service, port, protocol or icmp-type group holds exactly the protocols, source and destination ports, ranges, ICMP types and codes, nested members, order and description of its definition.",
     ["inputs"], "all definitions of the supported grammar (ASA and IOS)",
     "the tests check few definitions out of the product of protocols, operators, ports and ICMP types",
     [O, S, "lib/acltk/acl.bnf"], [{"name": "service parsing", "where": f"{S} service_group_object, service_object*, port_group_object, icmp_group_object, protocol_group_object"}],
     TRACE, SMALL)
prop("C13", "NAT rules are read as written and kept in evaluation order",
     "Every object NAT and twice NAT rule has the real and mapped interfaces, addresses, services, fallback, options and description written, "
     "and is listed, in order, in the section it belongs to: twice NAT first, object NAT second, twice NAT after-auto third.",
     ["inputs", "histories"], "all NAT commands of the supported grammar and all sequences of them",
     "the tests have no assertion on most NAT fields",
     [FS, S, O, "lib/acltk/fwsm.bnf"], [{"name": "twice NAT", "where": f"{FS} nat, nat_src, nat_dst"}, {"name": "object NAT", "where": f"{S} network_object_nat"}, {"name": "sections", "where": f"{O} ACLConfig.__init__"}],
     TRACE, SMALL + "Documented limits (mixed service objects, line numbers) are left out.")
prop("C14", "Filtering selects exactly the NAT rules that touch the addresses",
     "A filter by addresses selects a NAT rule if and only if its real or its mapped side matches: source and destination both, where the side has both; selecting from a configuration returns these NAT rules together with the matching access-list rules.",
     ["inputs", "configurations"], "all filters over all NAT rules",
     "the test suite has no NAT filtering test with assertions on each side",
     [O, CO], [{"name": "NAT match", "where": f"{O} NATObject.__and__, ACLConfig.filter"}],
     "exhaustive enumeration of address filters over NAT rules with every combination of sides, against the reference overlap",
     SMALL)
prop("C15", "ASA interfaces, access-groups and names are read as written",
     "Every interface has its alias, nameif, description and addresses, every access-group binds the access list to the interface it names and direction, and header and names are kept, whatever else stands in the interface section and in whatever order.",
     ["inputs", "histories"], "all interface sections and access-group sequences",
     "bindings depend on the order of commands and on similar names",
     [O, S, FS, "lib/acltk/fwsm.bnf"], [{"name": "interface construction", "where": f"{O} Interface"}, {"name": "access-group binding", "where": f"{O} ACLConfig.__init__"}],
     TRACE, SMALL)
prop("C16", "IOS interfaces, routes and VLANs are read as written",
     "Every IOS interface has its alias, description, addresses, access-groups, traffic filters and trunk VLANs, and every static route is recorded once with its network and gateway and attached to exactly the interfaces it leaves through.",
     ["inputs", "histories"], "all interface sections and route sequences",
     "route attachment depends on all addresses of all interfaces; VLAN lists on sequences of set and add",
     [O, IO, IS, "lib/acltk/ios.bnf"], [{"name": "interfaces", "where": f"{O} Interface"}, {"name": "routes", "where": f"{IO} iosConfig.__init__, {IS} ip_route"}],
     TRACE, SMALL)
prop("C17", "Every IOS IPv4 access-list rule is read as written",
     "For every numbered or named, standard or extended IOS access-list rule of the supported grammar, the rule has the id, action, protocol, addresses, ports, ICMP type and code and options the line states, and nothing else.",
     ["inputs"], "all IOS IPv4 access-list rules of the supported grammar",
     "the tests only check that an example parses",
     [IS, IOS, "lib/acltk/ios.bnf"], [{"name": "IOS rules", "where": f"{IS} ip_access_list*, access_list_ip_*, ios_host"}],
     TRACE, SMALL)
prop("C18", "Every IOS IPv6 access-list rule is read as written",
     "For every IOS IPv6 access-list rule of the supported grammar, the rule has the id, sequence number, action, protocol, addresses, ports and options the line states, and rules keep their order.",
     ["inputs"], "all IOS IPv6 access-list rules of the supported grammar",
     "the tests only check that an example parses",
     [IS, IOS, "lib/acltk/ios.bnf"], [{"name": "IPv6 rules", "where": f"{IS} ipv6_*"}],
     TRACE, SMALL)
prop("C19", "A wildcard mask means exactly its address set, from text to selection",
     "An IOS address with a wildcard mask, contiguous or not, whatever host bits are written, stands for exactly the addresses that agree with it on all bits the wildcard does not free: a filter host, network or list selects the rule exactly if it has one of them.",
     ["inputs"], "all address and wildcard pairs and all filters",
     "the tests check four wildcards",
     [IS, O], [{"name": "wildcards", "where": f"{O} NetworkWildcard, {IS} ios_host"}],
     "exhaustive enumeration of wildcards and filters in a window of address bits, parsed and filtered by the real code, against brute force over the addresses",
     SMALL)
prop("C20", "A malformed configuration is rejected, never half read",
     "An ASA or IOS configuration with a line that is not a sentence of the language, or with a port, protocol, ICMP type or code, address, mask, prefix length, time or date out of range, raises an error; it never yields a configuration in which an access-list rule, a definition, a NAT rule or an access-group is silently missing, truncated or altered.",
     ["inputs"], "all single faults (word deleted, replaced, doubled, line cut short) at every position of well-formed configurations",
     "the tests parse well-formed files only",
     ["lib/acltk/fwsm.bnf", "lib/acltk/ios.bnf", FW, IOS, S], [{"name": "grammars", "where": "lib/acltk/*.bnf"}, {"name": "range checks", "where": f"{S} port_int, protocol_int, icmp_*_int"}],
     "exhaustive single-fault injection into every word of every command, with a reference recogniser for the outcome",
     SMALL + "A fault either leaves a sentence the reference recogniser can read (then its meaning is compared) or must be rejected; lines of interface sections and commands the library does not know are ignored by design and not judged.")
prop("C21", "Every way to hand in a text gives the same result",
     "Reading from a string, a file or a path, with or without byte order mark, with LF or CRLF line ends, with or without a final line end, and with the specific or the autodetecting entry point gives the same configuration or filter.",
     ["configurations", "inputs"], "all combinations of entry point and encoding, for all contents",
     "the tests use one entry point per file",
     [O, CO, FO, IO, PO], [{"name": "entry points", "where": f"{O} ACLConfig.fromString/fromFile/fromPath/_parse, {CO} cafBlock.from*"}],
     "exhaustive product of entry points, encodings and contents, all outcomes compared with one another",
     SMALL)
prop("C22", "pfSense aliases and rules are read as written",
     "Every alias and filter rule of a pfSense or OPNsense configuration has the addresses, ports, protocol, action, interface, description, log, state and disabled settings of its element, with alias names bound to their alias, in the order of the file; an element of a rule, of its source or destination, or of the filter that the parser does not know (such as <not/>) is rejected, never skipped.",
     ["inputs"], "all alias and rule elements of the supported schema",
     "the tests check one example file",
     [PS], [{"name": "aliases and rules", "where": f"{PS} _parse_aliases, _parse_filter__rule"}],
     "explicit-state model of the XML schema; every element combination within the bounds is replayed on the parser", SMALL)
prop("C23", "pfSense interfaces, floating rules and separators are attributed correctly",
     "Rules are filed under the interface they name (its description, if it is an optional one), floating rules under floating with their interfaces and direction, and every separator is shown in front of exactly the rule at its row of its interface.",
     ["histories", "inputs"], "all orders of interfaces, rules and separators",
     "rows are counted per interface, so the result depends on the whole sequence of rules",
     [PS], [{"name": "interface map and separators", "where": f"{PS} _parse_interfaces, _parse_filter"}],
     "explicit-state model of rule and separator sequences; every sequence within the bounds is replayed on the parser", SMALL)
prop("C24", "Time ranges are read as written",
     "Every time range has exactly the absolute and periodic entries written, with their start and end dates, times and days, in order, and a rule that names it refers to it.",
     ["inputs"], "all time-range definitions of the supported grammar",
     "the tests have no assertion on time ranges",
     [S, O, "lib/acltk/acl.bnf"], [{"name": "time ranges", "where": f"{S} time_range, time_range_object, timedate"}],
     TRACE, SMALL)
prop("C25", "The rendered page shows every selected rule once, in order, with working links",
     "The rendered page shows exactly the selected rules, once each, in their order and with their fields, options, captions and remarks, and with the definitions they refer to; every reference of a rule, group or NAT rule to a definition is a link to the anchor of that definition on the page.",
     ["configurations", "inputs"], "all configurations and filters",
     "the tests do not look at rendered pages",
     ["examples/render/static.py", "examples/render/tpl/show.jinja2", "examples/render/tpl/static.jinja2", O], [{"name": "rendering", "where": "examples/render/static.py, tpl/show.jinja2"}],
     "exhaustive enumeration of small configurations and filters; the page is parsed and compared with the model", SMALL)
prop("C26", "A pickled configuration or filter comes back with the same meaning",
     "Storing and reloading a configuration with pickle gives a configuration with the same rules, definitions, shared references and filter results, for every kind of configuration.",
     ["inputs", "histories"], "all configurations",
     "the tests do not pickle",
     [O, IO, PO, "examples/render/dynamic.py"], [{"name": "object graph", "where": f"{O} all classes"}],
     "exhaustive enumeration of configurations over every construct, states compared by canonical form after the round trip", SMALL)
prop("C27", "Parses do not influence one another",
     "What a text parses to depends on this text alone: not on texts parsed before, successfully or not, and not on parses and filters running at the same time in other threads.",
     ["schedules", "histories"], "all sequences and all interleavings of parses",
     "tests parse one text at a time in a fixed order",
     [S, FS, IS, PS, CO], [{"name": "parser state", "where": f"{S} aclParser, {IS} iosParser.delim"}],
     "stateless exploration: all sequences of parses up to a depth, and all thread interleavings at call granularity up to a preemption bound under a controlled scheduler", SMALL)
prop("C28", "Port names map to their documented numbers",
     "Looking up a service by name, with or without a protocol in any case, returns the number of the documented table for this name and protocol, and nothing for names or protocols the table does not have.",
     ["inputs"], "all names and protocols",
     "the tests look up few names",
     [O], [{"name": "table lookup", "where": f"{O} PortUtil"}],
     "exhaustive enumeration of names and protocols against the vendor table", SMALL)
prop("C29", "The shipped parsers accept the language of their grammars",
     "The parsers shipped for filters, ASA and IOS accept exactly the texts the grammar files next to them describe and give the same result.",
     ["inputs"], "all texts",
     "the tests run the shipped parsers only",
     ["lib/acltk/caf.bnf", "lib/acltk/fwsm.bnf", "lib/acltk/ios.bnf", *BNF, CF, FW, IOS], [{"name": "generated parsers", "where": f"{CF} {FW} {IOS}"}],
     "parsers regenerated from the grammars in memory and run in lock step with the shipped ones over exhaustively enumerated texts", SMALL)
prop("C30", "The web service shows what was last stored under a name, filtered as asked",
     "Whatever sequence of uploads and views clients send, each view shows the configuration last stored under its name, restricted to the filter of that request; neither a failing upload, a wrong filter nor any view (filtered, expanded) changes what is stored, and no upload changes what is stored under another name.",
     ["histories"], "all request sequences",
     "the web service has no tests",
     ["examples/render/dynamic.py", O], [{"name": "request handlers", "where": "examples/render/dynamic.py"}],
     "breadth first search over request sequences against a model store, on the real application with an in-memory shelf", SMALL)
prop("C31", "IOS rules, remarks and ignored commands keep order and identity",
     "However IOS access lists, numbered rules, remarks and ignored commands and sections are interleaved, the rules come out in the order written, each with exactly the remarks of its own access list before it; ignored commands and banners change nothing.",
     ["histories"], "all sequences of commands",
     "what a remark attaches to depends on the sequence of commands around it",
     ["lib/acltk/ios.bnf", IOS, IS, IO], [{"name": "remarks", "where": f"{IS} ip_access_list*, access_list_ip_*"}, {"name": "banner", "where": f"{IS} iosParser._delim_msg_"}],
     TRACE, SMALL)
prop("C32", "The example programs print the selection of the library",
     "The filter example prints the number and the rules the filter selects, rules made by hand select what they match, the static rendering example writes the page of the configuration it is given, filtered, sorted and expanded as its options say, and both fail on texts that are no filter or configuration, for every configuration and filter.",
     ["inputs", "configurations"], "all configurations and filters",
     "the examples have no tests",
     ["examples/caf-filter.py", "examples/acl-filter.py", "examples/render/static.py"], [{"name": "examples", "where": "examples/*.py"}],
     "exhaustive enumeration of small configurations and filters; the output of the programs is compared with the reference selection", SMALL)


def main():
    claimed, missing = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
            built = os.path.exists(os.path.join(HERE, "mc/checks", p["id"].lower() + ".py"))
            if built:
                claimed.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']}",
                                "thorough_cmd": f"bin/check {p['id']} --tier=thorough",
                                "technique": p["technique"], "level": "model_checking", "level_note": p["note"].strip()})
            else:
                missing.append({"property": p["id"], "reason": "the check is not built yet"})
    m = {"version": 1, "setup_cmd": "true", "checks": claimed, "not_applicable": missing}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(claimed), "claimed,", len(missing), "not")


main()
