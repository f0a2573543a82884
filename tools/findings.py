#!/usr/bin/env python3
"""Write known_findings.json from the list below."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("B01", "6aa04d0", "OIDs beginning 1.8-1.15, 1.24-1.31, 2.16-2.31... were encoded with the first octet first*40 | second"),
 ("B02", "7ab2aa9", "an OID whose last octet has the continuation bit was accepted"),
 ("B05", "19e0fa5", "index values out of range escaped as ParseError, ValueError or a RuntimeError instead of IndexDecodeError"),
 ("B05", "019561d", "an IpAddress in the middle of an index was encoded with a length prefix"),
 ("B06", "d51a240", "a view with start beyond stop had a negative length"),
 ("B06", "0c43db3", "slicing a view with a negative step gave the wrong octets"),
 ("B02", "58480b1", "negative msgAuthoritativeEngineBoots and EngineTime were accepted"),
 ("U03", "2355375", "the estimated engine time could leave 0..2^31-1 and make requests unencodable"),
 ("U05", "2253c43", "the OpenSSL backend returned the whole output buffer, with up to a block of trailing zeros"),
 ("U05", "27b61c3", "DES decryption returned a block of decrypted padding after the plaintext"),
 ("U05", "4dbf9ac", "a DES salt that is not eight octets long was accepted"),
 ("U06", "80d8b49", "two threads encrypting at once could use the same salt"),
 ("M02", "d6a40d9", "a request refreshed exactly on schedule was sent twice"),
 ("M02", "f1c0e04", "a v1/v2c request was scheduled by its expiration, so another request delayed its retransmissions"),
 ("M01", "fc8f0fc", "wait() could block forever when another thread's request had left the schedule empty"),
 ("M01", "7b7e3be", "a response that arrived before wait() was called late was reported as Timeout"),
 ("M05", "d14a79f", "requests queued during synchronisation were only sent at the next refresh"),
 ("M05", "b4bc261", "a queued request waited beyond its own timeout"),
 ("M05", "4455ecf", "an expired queued request was still sent"),
 ("M05", "8d56c38", "queued requests were lost when sending one of them failed"),
 ("R01", "9ddb0a3", "two threads could generate the same v3 request ID"),
 ("E01", "209197b", "an unsupported transport domain was reported as KeyError or UnboundLocalError"),
 ("E01", "7a4596a", "misspelled arguments and those of other versions were silently ignored for SNMPv3 managers"),
 ("E01", "c19068c", "leaving the context of an engine that was already shut down raised OSError or closed somebody else's descriptor"),
 ("E01", "50cb1d1", "a control socket of the generic multiplexor that could not be bound left the engine impossible to shut down"),
 ("D03", "1604eb8", "a receive error ended the listener thread"),
 ("M02", "4a9eff6", "a late Report made an answered or expired v3 request be sent again"),
 ("M06", "8bc15be", "a v3 request that raised a report stayed in a reference cycle; its destructor, run later by the garbage collector, could deadlock or keep the engine ID registered"),
 ("M06", "2f8c553", "the garbage collector running a destructor inside a locked region deadlocked the thread"),
 ("M06", "366bb55", "closing a v3 request while the listener was sending it raised AssertionError or SNMPLibraryBug, or lost or leaked engine registrations"),
 ("M06", "0cbaae6", "a v3 request whose handle was being dropped could be sent again by the listener and leave its engine registration behind"),
 ("M08", "e86368b", "an error in retransmitting a v1/v2c request ended the wait() of another one, and left the others to be resent late"),
 ("M08", "2a2e241", "a queued v3 request that could not be sent was lost, its wait() a busy loop until its deadline, and those behind it stuck; or its error ended another request's wait()"),
 ("B07", "6c3969f", "printing a PDU whose error status is a plain integer, such as a copy made from its repr, raised AttributeError"),
 ("B07", "d028017", "a GetBulk PDU printed inside a message lost its indentation"),
]
KNOWN = [
]

def main():
    out = []
    for p, commit, what in FIXED:
        out.append(dict(property=p, key=commit, status="fixed", commit=commit,
            what=what, line=f"fixed: property={p} {commit} {what}"))
    for p, key, what in KNOWN:
        out.append(dict(property=p, key=key, status="known", what=what))
    with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
        json.dump(dict(findings=out), f, indent=1)
        f.write("\n")

main()
