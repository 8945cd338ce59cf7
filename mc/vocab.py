"""Vocabulary of the configuration languages (from the vendor documentation of the commands)."""
PROTOCOLS = (
    "ip tcp udp icmp icmp6 icmpv6 ah ahp eigrp esp gre igmp igrp ipinip ipsec ipv6 nos ospf pcp pim pptp snp".split()
)
PORTS = """aol bgp biff bootpc bootps chargen citrix-ica cmd ctiqbe daytime discard dnsix domain echo exec finger ftp
ftp-data gopher h323 hostname http https ident imap4 irc isakmp kerberos klogin kshell ldap ldaps login lotusnotes lpd
mobile-ip nameserver netbios-dgm netbios-ns netbios-ss netbios-ssn nfs nntp non500-isakmp ntp pcanywhere-data
pcanywhere-status pim-auto-rp pop2 pop3 pptp radius radius-acct rip rpc rsh rtsp secureid-udp sip smtp snmp snmptrap
sqlnet ssh sunrpc syslog tacacs talk telnet tftp time uucp who whois www xdmcp""".split()
ICMP = """address-mask-reply address-mask-request administratively-prohibited alternate-address conversion-error
destination-unreachable dod-host-prohibited dod-net-prohibited echo echo-reply echo-request general-parameter-problem
host-isolated host-precedence-unreachable host-redirect host-tos-redirect host-tos-unreachable host-unknown
host-unreachable information-reply information-request mask-reply mask-request membership-query membership-reduction
membership-report mobile-redirect neighbor-advertisement neighbor-redirect neighbor-solicitation net-redirect
net-tos-redirect net-tos-unreachable net-unreachable network-unknown no-room-for-option option-missing packet-too-big
parameter-problem port-unreachable precedence-unreachable protocol-unreachable reassembly-timeout redirect
router-advertisement router-renumbering router-solicitation source-quench source-route-failed time-exceeded
timestamp-reply timestamp-request traceroute ttl-exceeded unreachable""".split()
