"""C36: absent values and algorithms that were not selected end in an error, not in a panic."""
from rulelib import *
from registry import prop, flow, responder, req, REQ_NAMES
from r_resp import Sends

prop("C36", "Over every path of process_message and of each request function: at every unwrap/expect of an Option or Result the value is known to be there (decided by a test on the path, by what the code that produced it returned, or by being built there); "
     "and, in the responder, at every query of the size of a negotiated signature, key exchange or AEAD algorithm and at every use of one to create a key pair or session keys, the algorithm is known not to be empty; "
     "ALGORITHMS is sent only if a base hash algorithm is known to be selected.", quick=("A",),
     expect=[("^unwrap", 10), ("^size of base_asym_sel", 3), ("^session keys", 1), ("^ALGORITHMS", 1)])

UNWRAP = re.compile(r"\b(option|result)(?:::Option|::Result)?(?:::<.*>)?::(unwrap|expect|unwrap_err|expect_err)$")
SIZE = re.compile(r"::algo::Spdm\w+Algo>?::get_(key_|iv_|tag_|nonce_)?size$")


def unwraps(rule, eng, call, args, st):
    m = UNWRAP.search(call.name)
    if not m:
        return
    good = 1 if m.group(1) == "option" else 0
    if m.group(2).endswith("_err"):
        good = 1
    v = args[0]
    n = v.op == "agg" and v.a[2] in ("Some", "Ok", "Err")
    ok = v.a[2] == ("Some" if m.group(1) == "option" else "Err" if good else "Ok") if n else st.val(discr(v)) == good
    rule.ob(f"{m.group(2)} in {call.where().split(' in ')[-1]}", bool(ok), call.where(), f"{show(v)[:160]} is not known to be there")


def chosen(st, v):
    """is the bit set v known not to be empty on this path"""
    b = v.a[3][0] if v.op == "agg" and len(v.a[3]) == 1 else fld(v, F("bits"))
    f = st.facts.get(b)
    return bool(f) and (f[0] == "=" and f[1] != 0 or f[0] == "!" and 0 in f[1])


def requester(c):
    return req(*REQ_NAMES, "get_encapsulated_request_response")(c) if c in "AC" else req(*REQ_NAMES)(c)


@flow("C36", requester)
class Requester(Rule):
    def on_call(self, eng, call, args, st):
        unwraps(self, eng, call, args, st)
        return None


@flow("C36", responder)
class Responder(Sends):
    def on_call(self, eng, call, args, st):
        unwraps(self, eng, call, args, st)
        n = call.name
        neg = lambda f: eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("negotiate_info"), F(f)))
        if SIZE.search(n):
            v = args[0]
            v = eng.content(st, v) if v.op in ("loc", "ref") else v
            name = next((x for x in ("base_asym_sel", "dhe_sel", "aead_sel") if v is neg(x)), None)
            if name:
                self.ob(f"size of {name} in {call.where().split(' in ')[-1]}", chosen(st, v), call.where(), "the algorithm may be unselected here")
        elif n.endswith("dhe::generate_key_pair"):
            self.ob("key exchange with a selected algorithm", chosen(st, neg("dhe_sel")), call.where(), "no key exchange algorithm may be selected here")
        elif n.endswith("::SpdmSession::generate_handshake_secret"):
            self.ob("session keys for a selected AEAD", chosen(st, neg("aead_sel")), call.where(), "no AEAD algorithm may be selected here")
        return super().on_call(eng, call, args, st)

    def send(self, eng, call, st, o, w):
        if o.code == "SpdmResponseAlgorithms":
            v = eng.rd(st, ("D", mk("arg", "self")), (F("common"), F("negotiate_info"), F("base_hash_sel")))
            self.ob("ALGORITHMS: a hash algorithm is selected", chosen(st, v), w, "the base hash algorithm may be unselected here")
