"""Rewrites the per-property part of DESIGN.md from properties.jsonl, index.py and the texts below."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
from index import INDEX  # noqa

# property -> (oracle: what the assertion compares with, what the tests cannot reach, quick seconds on 8 cores)
HOW = {
 "C01": ("Field values before encoding against those after decoding, for message objects whose fields are symbolic.",
         "Lengths at and beyond every field width and all texts at once; the tests encode a handful of short messages.", 25),
 "C02": ("An independent parser of the documented layout (harness/wire.py) that slices the emitted bytes; it shares no code with anthunder.protocol.",
         "A byte that is wrong only for some field value or length.", 20),
 "C03": ("The map given, an independent header parser, and the number of bytes emitted.",
         "Every code point (one to four UTF-8 bytes), all lengths, nulls in every position.", 25),
 "C04": ("An independent decoder written from the format: same verdict (refused or exact content) on every byte string.",
         "All byte strings of a length instead of samples; which exception escapes for which bytes.", 40),
 "C05": ("Either the frame decodes to the given fields (independent parser) or the exception is of the protocol's classes.",
         "Values just outside each field, for unbounded integers.", 3),
 "C06": ("Range of each id; distinctness of any two ids at any distance up to the period, the iterator's state being symbolic; threads under the scheduler.",
         "The wrap-around, 2^31 requests away; every random start; interleavings.", 5),
 "C07": ("The bytes the server wrote, parsed independently, against a table: what the request names and what its service does decide status and content.",
         "All orders of service end, timeout, arrival and backpressure on virtual time; exceptions that asyncio treats specially.", 15),
 "C08": ("Count and arguments of the service's invocations; bytes written must be none.", "All outcomes combined with what follows and when.", 35),
 "C09": ("Status by kind of defect, no invocation, and the neighbours' responses as if alone.", "All defective bytes, with the good requests cut anywhere.", 40),
 "C10": ("Each service object records class, context, arguments and content; each response is matched by id with the request's own result.",
         "Every completion order of requests in flight.", 65),
 "C11": ("One response frame, parsed independently: id, status, empty sections.", "Heartbeats with any sections; in any neighbourhood and fragmentation.", 20),
 "C12": ("Which requests were complete where the stream was cut (known to the scenario) against the services invoked and the ids answered CONNECTION_CLOSED; task and connection ended.",
         "Every cut position, every moment of the loss.", 12),
 "C13": ("As C07 for the blocking server: one symbolic request; the handler (real StreamRequestHandler) must return. Two connections run as threads of the real ThreadingTCPServer under the scheduler.",
         "All cut positions, damaged fields of any value, interleavings of connections.", 30),
 "C14": ("The content each call returns against the response with its id.", "All orders and contents of responses, doubled and foreign ones, any cut.", 20),
 "C15": ("The exception class and status; callbacks not invoked; the neighbour call's own result.", "All malformed values of each field of a response.", 15),
 "C16": ("Frames found on the wire, parsed independently.", "Any content length, id and timeout; failures to send.", 15),
 "C17": ("Number of dials and connections as seen by the stand-in network; calls after the loss must arrive whole on a live connection.",
         "Orders of dialling, losing and sending; races of callers for the dial lock.", 8),
 "C18": ("request_mapping/response_mapping (any container of the client that grows) back to empty; no call of a lost connection pending when nothing else can happen.",
         "Every way and moment for a call to end.", 3),
 "C19": ("Heartbeat frames per interval on virtual time; the returned truth value against the answer.", "Answers, refusals and losses in each of several intervals.", 10),
 "C20": ("Returned bytes against the content of the response with the request's id.", "Every fragmentation, surplus and status; foreign ids; threads sharing a client.", 60),
 "C21": ("Virtual clock at the end of the call; no poll after it.", "All arrival times relative to a symbolic deadline.", 8),
 "C22": ("Bytes accepted by the stand-in socket, concatenated, against one request frame; number of connections tried.", "Partial sends of every size; failures after any byte.", 80),
 "C23": ("Return or exception against (status, body); posts recorded by a stand-in session.", "Every status and body kind; sequences of startups; threads.", 40),
 "C24": ("A reference map kept by the scenario; the address the client really connects to.", "All short histories; threads mapping at once.", 25),
 "C25": ("Posts recorded by the stand-in session, against the registrations made.", "All histories of two listeners; any port and names.", 20),
 "C26": ("Connections the stand-in network has open, counted by the scenario, against limit and reported count.", "All histories of operations and drops.", 25),
 "C27": ("State the scenario tracks of every connection (out, dropped, closed).", "All histories.", 10),
 "C28": ("As C26/C27 at every step and at the end, under the scheduler.", "All interleavings within the preemption bound.", 50),
 "C29": ("A reference LRU (list of keys); multiset of disposed values. Threads: linearizability against it.", "All histories with symbolic keys (equal or not).", 160),
 "C30": ("Reference LRU of pools; pool objects' closed state; puts counted.", "Histories with symbolic ports, failures in scopes, threads.", 45),
 "C31": ("Prefix of a symbolic stream.", "Every fragmentation, every size.", 3),
 "C32": ("Ids parsed as number lists, compared with a reference numbering; pairwise distinctness.", "All derivation sequences; threads.", 55),
 "C33": ("Equality of opaque texts through inject, encode, decode, extract.", "All texts and lengths.", 10),
 "C34": ("Distinctness of two ids at any distance up to 8000 for any clock; independent parse of the form.", "The clock standing still or going back; distances a test would not wait for.", 10),
 "C35": ("Values given against values recorded.", "All texts and tags, every way of starting a span.", 3),
 "C36": ("Independent request answered with its own outcome while another misbehaves; after shutdown the stand-in listening socket is closed and no request is served.",
         "Interleavings of connections with each other and with shutdown.", 50),
 "C37": ("The call after the history returns the content sent for it; count of stand-in sockets still open after each call.",
         "Slots or sockets lost on one ending only, after more calls than a pool has slots.", 11),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    out = []
    for p in props:
        i = INDEX[p["id"]]
        oracle, why, cost = HOW[p["id"]]
        out.append("### %s %s\n" % (p["id"], p["title"]))
        out.append("Harness: %s. Oracle: %s" % (", ".join("harness/%s.py" % m for m in i["modules"]), oracle))
        out.append("Beyond the tests: %s" % why)
        out.append("Bounds: %s" % " ".join(i["bounds"].split()))
        out.append("Outside: %s Cost: about %d s quick on 8 cores.\n" % (" ".join(i["outside"].split()), cost))
    f = os.path.join(ROOT, "DESIGN.md")
    t = open(f).read()
    a, b = "<!-- properties: tools/gen_design.py -->\n", "<!-- end of properties -->\n"
    t = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n".join(out) + b, t, flags=re.S)
    open(f, "w").write(t)


main()
