"""What MANIFEST.json says about each check."""
COMMON = ("Exhaustive for the specification within the bounds in the cfg files; the code is bound to it by traces, so for the "
          "code the result holds for the behaviours driven. Trusted: TLC, the harness and its own wire implementation. ")
NODE = "TLA+ (Node) model checked with TLC; TLC-generated "
NODE_LEVEL = ("Where stimuli race, TLC looks for any behaviour of the specification that explains what was seen; traces for which the search "
              "exceeds its budget are left undecided and counted in the evidence. ")
TECHNIQUE = {
    "C01": "TLA+ (Session, SessionNet) model checked with TLC; TLC-generated handshakes replayed into the code and traces validated",
    "C02": "TLA+ (Stream, SessionNet) model checked with TLC; TLC-generated tampering replayed and traces validated",
    "C03": "TLA+ (Wire) model checked with TLC; recorded wire traffic validated against it",
    "C04": "TLA+ (Stream) model checked with TLC incl. liveness; recorded concurrent traffic validated against it",
    "C05": "TLA+ (Rpc) model checked with TLC incl. liveness; TLC-generated request histories replayed into the code and traces validated",
    "C06": "TLA+ (Rpc) model checked with TLC incl. liveness; TLC-generated losses and racing losses replayed and traces validated",
    "C07": "TLA+ (Rpc) model checked with TLC; TLC-generated answering attempts replayed into the code and traces validated",
    "C08": NODE + "histories of calls, losses and new connections, one after another and racing, replayed into the code and traces validated",
    "C09": NODE + "histories that fill small pools, one after another and racing, replayed into the code and traces validated",
    "C10": NODE + "histories over addresses that fail, refuse, stall and recover replayed into the code and traces validated",
    "C11": NODE + "histories of contexts ending at any point of other calls' lives replayed into the code and traces validated",
    "C12": "TLA+ (Notify, Node) model checked with TLC; TLC-generated connection lives and node histories replayed into the code and the order of callbacks validated",
    "C13": "TLA+ (Workers) model checked with TLC incl. liveness; TLC-generated handler errors replayed into the code and traces validated",
    "C14": NODE + "histories with closes at any point, from several goroutines and from handlers, replayed into the code and traces validated",
    "C18": "TLA+ (Codec) model checked with TLC; TLC-generated registrations, encodings and decodings, from one thread or several, replayed into the code and traces validated",
    "C15": "TLA+ (Limit) model checked with TLC; TLC-generated frames of sizes around the limit replayed into the code and traces validated",
    "C16": "TLA+ (Idle) model checked with TLC; TLC-generated activity and pauses replayed into the code and timed traces validated",
    "C17": "TLA+ (Hostile) model checked with TLC incl. liveness; TLC-generated doings of hostile peers beside well-behaved ones replayed into nodes of the code and traces validated",
    "C25": "TLA+ (IdWire) model checked with TLC; encodings, decodings and identities exchanged by the code validated against it",
    "C26": "TLA+ (Registration) model checked with TLC incl. liveness; TLC-generated registrations, from one thread or several, replayed into the code and traces validated",
    "C19": "TLA+ (Table) model checked with TLC; TLC-generated histories of a table, by one thread or several, replayed into the code and traces validated",
    "C20": "TLA+ (Table) model checked with TLC, including the walk over buckets; TLC-generated histories and queries, also over the network, replayed into the code and traces validated",
    "C21": "TLA+ (Routing) model checked with TLC; TLC-generated activity of scripted peers that answer pings or not replayed into the code and traces validated",
    "C22": "TLA+ (Lookup) model checked with TLC incl. liveness; lookups in networks of scripted peers run by the code and traces of who was asked and what was found validated",
    "C23": "TLA+ (Gossip, GossipNet) model checked with TLC incl. liveness; TLC-generated messages of peers and pushes, one after another and at once, replayed into the code and traces validated",
    "C24": "TLA+ (Gossip, GossipNet) model checked with TLC incl. liveness; TLC-generated messages of peers and pushes, also to peers that come and go, and pushes in networks of nodes replayed into the code and traces validated",
}
LEVEL = {
    "C01": COMMON + "Cryptography is symbolic in the specification; every generated handshake uses the real one.",
    "C02": COMMON + "Cryptography is symbolic in the specification; every bit and every length of a frame is tampered with in the code.",
    "C03": COMMON + "Freshness is judged over the sessions and frames of a run, with math/rand reseeded meanwhile.",
    "C04": COMMON + "Interleavings of the code are those the scheduler and random pauses bring about.",
    "C05": COMMON + "Peers are scripted byte by byte; more than 65536 requests go over one connection with numbers held meanwhile.",
    "C06": COMMON + "A request counts as never ending if it has not ended 10 s after it should have.",
    "C07": COMMON + "Races between attempts are brought about by a barrier, not enumerated.",
    "C08": COMMON + NODE_LEVEL + "Up to 2 addresses and 10 calls a history.",
    "C09": COMMON + NODE_LEVEL + "Pools of 1 to 3 connections, up to 4 addresses and 8 accepted connections. A bound on outbound connections that is exceeded because an evicted one is listed until it has ended is a known finding.",
    "C10": COMMON + NODE_LEVEL + "Dials to addresses that refuse connections cannot be counted; those to addresses that fail the handshake are.",
    "C11": COMMON + NODE_LEVEL + "Up to 8 calls a history.",
    "C12": COMMON + NODE_LEVEL + "Connection lives have up to 3 protocols and messages, responses and losses on either side.",
    "C13": COMMON + "Up to 3 workers, 4 connections and 8 messages a history.",
    "C14": COMMON + NODE_LEVEL + "Closing counts as hanging if it has not returned after 10 s.",
    "C18": COMMON + "Calls that overlap must have an order that explains their outcomes. Up to 420 types are registered, of 65536 possible.",
    "C15": COMMON + "Content announced but not sent shows that it is not waited for; what is allocated is measured.",
    "C16": COMMON + "Timeouts of 0.5 to 1.2 s. Closing early is judged against when data was written, so exactly; closing late with a grace of 8 s. Runs in which the machine was too slow are left out, and what is rejected must be so three times.",
    "C17": COMMON + "Hostile peers do at each point of a connection what a list of some dozens of doings names (malformed, cut short, oversized, unexpected, silent); a node counts as wedged if a well-behaved peer goes unanswered beyond its patience.",
    "C25": COMMON + "Bytes are random, with a bias to special hosts and to lengths next to those required.",
    "C26": COMMON + "Calls that overlap must have an order that explains what took effect.",
    "C19": COMMON + "Keys of 256 bits are cut down to the up to 30 bits in which those of a scenario first differ. Calls that overlap must have an order that explains their outcomes.",
    "C20": COMMON + "Keys of 256 bits are cut down to the up to 30 bits in which those of a scenario first differ; up to 30 keys a scenario.",
    "C21": COMMON + NODE_LEVEL + "Up to some 20 peers around a bucket of 16.",
    "C22": COMMON + "Networks of up to some 40 scripted peers, keys cut down to the bits in which they first differ.",
    "C23": COMMON + "The specification of traces needs no search; that it accepts all that the specification can do is tested with behaviours of it (thorough). Up to 10 peers, 8 messages of up to 200 kB, networks of up to 12 nodes.",
    "C24": COMMON + "The specification of traces needs no search; that it accepts all that the specification can do is tested with behaviours of it (thorough). Up to 10 peers, 8 messages of up to 200 kB, networks of up to 12 nodes. A message counts as lost if it has not arrived after 10 s.",
}
NA = {}
