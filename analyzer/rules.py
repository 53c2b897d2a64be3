"""Rules decided by the compiler's own type, borrow, privacy and unsafety checks on the current
source: witnesses that must not compile, and comparison of the two configurations. Each rule takes
(work directory, repository, verification directory) and gives findings, evidence and what stays
undecided."""
import json
import os
import re
import subprocess

FLAGS = ["-Awarnings", "--edition", "2021"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **kw)


PRELUDE = """
#![allow(warnings)]
use lokky::scope::{self, AllocMarker, AllocSelector, Env, Envelop, Envelope, Scope, ScopeRecv};
use lokky::{rc, arc, urc, vec, small_vec, boxed, string, ScopePtr};
use lokky::rc::Rc;
use lokky::arc::Arc;
use lokky::urc::{Urc, Fence};
use lokky::vec::Vec;
use lokky::small_vec::SmallVec;
use lokky::boxed::Box;
use lokky::string::String;
use std::cell::Cell;
use std::marker::PhantomData;
struct SyncOnly(PhantomData<std::sync::MutexGuard<'static, u32>>);
fn send<T: ?Sized + Send>() {}
fn sync<T: ?Sized + Sync>() {}
fn has_clone<T: Clone>() {}
fn has_copy<T: Copy>() {}
fn has_default<T: Default>() {}
fn has_from<T: From<U>, U>() {}
fn has_envelop<T: Envelop<'static>>() {}
fn has_deref_mut<T: std::ops::DerefMut>() {}
fn has_as_mut<T: AsMut<U>, U: ?Sized>() {}
fn has_borrow_mut<T: std::borrow::BorrowMut<U>, U: ?Sized>() {}
fn arg<T>() -> T { loop {} }
"""


class W:
    """A witness: `body` must be refused with one of `codes`."""

    def __init__(self, props, name, body, codes, why, sig="()", key=None, twin=None):
        self.props, self.name, self.body, self.codes, self.why, self.sig, self.key, self.twin = props, name, body, codes, why, sig, key, twin

    def text(self, k, body):
        return "fn w%d%s { %s }" % (k, self.sig, body)


def witnesses():
    out = []
    T = ("E0277",)

    def trait(props, bound, ty, why, key=None):
        out.append(W(props, "%s: %s" % (ty, bound), "%s::<%s>();" % (bound, ty), T, why, key=key))

    confined = """Rc<u32>;Rc<str>;Rc<[u32]>;Rc<dyn Send + Sync>;rc::Weak<u32>;Urc<u32>;urc::Weak<u32>;Vec<u32>;Vec<()>;vec::IntoIter<u32>;vec::Drain<'static, u32>;SmallVec<u32, 2>;small_vec::Drain<'static, u32, 2>;Box<u32>;Box<str>;Box<[u32]>;Box<dyn Send + Sync>;String;ScopePtr<u32>;ScopePtr<[u32]>;Option<Rc<u32>>""".split(";")
    for t in confined:
        trait(("C18",), "send", t, "%s is confined to its thread, yet it may be sent to another one" % t)
        trait(("C18",), "sync", t, "%s is confined to its thread, yet it may be shared with another one" % t)
    trait(("C18",), "sync", "Fence<u32>", "a fence counts without synchronisation, yet it may be shared between threads")
    for c in ("Arc", "arc::Weak"):
        for p in ("Cell<u32>", "SyncOnly", "*const u32", "Rc<u32>", "Vec<u32>", "dyn Send", "dyn Sync", "[Cell<u32>]"):
            for b in ("send", "sync"):
                trait(("C18",), b, "%s<%s>" % (c, p), "%s is %s although its payload %s is not both sendable and shareable" % (c, "Send" if b == "send" else "Sync", p))
    for p in ("Cell<u32>", "SyncOnly", "*const u32", "Vec<u32>"):
        trait(("C18",), "send", "Fence<%s>" % p, "a fence of %s may be sent although that payload is not both sendable and shareable" % p)
    for p in ("Cell<u32>", "SyncOnly"):
        for c in ("Arc", "Urc"):
            trait(("C18",), "has_envelop", "%s<%s>" % (c, p), "an envelope can be made of %s<%s>, whose payload is not both sendable and shareable" % (c, p), "envelop-bounds")
    for t in ("Rc<u32>", "rc::Weak<u32>"):
        trait(("C18",), "has_envelop", t, "an envelope can be made of %s, whose counters are not synchronised" % t)
    for t in ("Rc<u32>", "Urc<u32>"):
        trait(("C18",), "has_clone", "Envelope<'static, %s>" % t, "an envelope is duplicated without a reference of its own")
        trait(("C18",), "has_from", "Envelope<'static, %s>, %s" % (t, t), "an envelope is created safely without a reference of its own")
        trait(("C18",), "sync", "Envelope<'static, %s>" % t, "an envelope is shared between threads")
    trait(("C18",), "has_default", "Envelope<'static, Rc<u32>>", "an envelope is created safely")
    # What must stay an owner of its own.
    for t in ("Vec<u32>", "SmallVec<u32, 2>", "Box<u32>", "String", "Rc<u32>", "rc::Weak<u32>", "Arc<u32>", "arc::Weak<u32>", "Urc<u32>", "urc::Weak<u32>", "ScopePtr<u32>", "vec::IntoIter<u32>"):
        trait(("C03", "C08"), "has_copy", t, "%s owns memory, yet it is copied freely" % t)
    trait(("C03", "C24"), "has_clone", "ScopePtr<u32>", "a scope pointer, the owner of its value, is duplicated by safe code")
    # Shared pointers give no mutable access by themselves.
    for t in ("Rc", "Arc", "Urc"):
        trait(("C17",), "has_deref_mut", "%s<u32>" % t, "%s gives mutable access without sole ownership" % t)
        trait(("C17",), "has_as_mut", "%s<u32>, u32" % t, "%s gives mutable access without sole ownership" % t)
        trait(("C17",), "has_borrow_mut", "%s<u32>, u32" % t, "%s gives mutable access without sole ownership" % t)
    trait(("C20",), "has_deref_mut", "NotText<<String as std::ops::Deref>::Target>", "the bytes of a string are open to change")
    trait(("C20",), "has_as_mut", "String, [u8]", "the bytes of a string are open to change")
    trait(("C20",), "has_as_mut", "String, Vec<u8>", "the bytes of a string are open to change")
    trait(("C20",), "has_borrow_mut", "String, [u8]", "the bytes of a string are open to change")
    trait(("C20",), "has_from", "String, Vec<u8>", "a string is made of unchecked bytes")
    out = [w for w in out if "NotText" not in w.name]

    U = ("E0133",)

    def unsafe(props, name, call, why, sig="()"):
        out.append(W(props, name, call, U, why, sig, twin="unsafe { %s }" % call))

    unsafe(("C18",), "Envelope::new", "let _ = Envelope::<'static, Rc<u32>>::new(arg::<Rc<u32>>());", "an envelope of any value is created by safe code")
    unsafe(("C05",), "Vec::set_len", "v.set_len(9);", "safe code changes the length of a vector without values", "(v: &mut Vec<std::boxed::Box<u32>>)")
    unsafe(("C20",), "String::as_mut_vec", "let _ = s.as_mut_vec();", "the bytes of a string are open to change by safe code", "(s: &mut String)")
    for t in ("Arc", "Urc"):
        unsafe(("C17",), t + "::get_mut_unchecked", "let _ = %s::get_mut_unchecked(a);" % t, "%s gives mutable access without sole ownership to safe code" % t, "(a: &mut %s<u32>)" % t)
    unsafe(("C24", "C05"), "ScopePtr::new", "let _ = ScopePtr::<u32>::new(p, a, AllocMarker::None);", "safe code makes an owner of any address", "(p: std::ptr::NonNull<u32>, a: &dyn std::alloc::GlobalAlloc)")
    unsafe(("C24", "C05"), "ScopePtr::cast", "let _ = p.cast::<std::string::String>();", "safe code reinterprets the value of a pointer", "(p: ScopePtr<u32>)")
    unsafe(("C24", "C05"), "ScopePtr::cast_to_slice", "let _ = p.cast_to_slice(9);", "safe code shows memory behind the value of a pointer", "(p: ScopePtr<u32>)")
    unsafe(("C24", "C05"), "ScopePtr::slice_ref", "let _ = p.slice_ref(9);", "safe code shows memory behind the value of a pointer", "(p: &ScopePtr<u32>)")
    unsafe(("C24", "C05"), "ScopePtr::slice_mut", "let _ = p.slice_mut(9);", "safe code shows memory behind the value of a pointer", "(p: &mut ScopePtr<u32>)")
    unsafe(("C24", "C03"), "ScopePtr::clone", "let _ = p.clone();", "safe code makes a second owner of a value", "(p: &ScopePtr<u32>)")
    unsafe(("C24", "C05"), "ScopePtr::dealloc", "p.dealloc();", "safe code releases a value that is still owned", "(p: &mut ScopePtr<u32>)")

    B = ("E0499", "E0502", "E0505", "E0506", "E0515", "E0521", "E0597", "E0716", "lifetime", "E0310", "E0309", "E0503", "E0382", "E0700")

    def borrow(props, name, body, why, sig, twin):
        out.append(W(props, name, body, B, why, sig, twin=twin))

    own = [
        ("Vec", "Vec<u32>", "v.as_slice()", "v.push(1)"), ("Vec", "Vec<u32>", "v.as_mut_slice()", "v.push(1)"), ("Vec", "Vec<u32>", "v.drain(..)", "v.push(1)"), ("Vec", "Vec<u32>", "&**v", "v.clear()"), ("Vec", "Vec<u32>", "&mut **v", "v.clear()"), ("Vec", "Vec<u32>", "v.iter()", "v.clear()"), ("Vec", "Vec<u32>", "AsRef::<[u32]>::as_ref(v)", "v.clear()"), ("Vec", "Vec<u32>", "AsMut::<[u32]>::as_mut(v)", "v.clear()"), ("Vec", "Vec<u32>", "std::borrow::Borrow::<[u32]>::borrow(v)", "v.clear()"), ("Vec", "Vec<u32>", "&v[0]", "v.clear()"), ("Vec", "Vec<u32>", "&mut v[0..1]", "v.clear()"),
        ("SmallVec", "SmallVec<u32, 2>", "v.as_slice()", "v.push(1)"), ("SmallVec", "SmallVec<u32, 2>", "v.as_mut_slice()", "v.push(1)"), ("SmallVec", "SmallVec<u32, 2>", "v.drain(..)", "v.push(1)"), ("SmallVec", "SmallVec<u32, 2>", "&**v", "v.clear()"), ("SmallVec", "SmallVec<u32, 2>", "&mut **v", "v.clear()"), ("SmallVec", "SmallVec<u32, 2>", "v.iter()", "v.clear()"), ("SmallVec", "SmallVec<u32, 2>", "(&*v).into_iter()", "v.clear()"), ("SmallVec", "SmallVec<u32, 2>", "&v[0]", "v.clear()"), ("SmallVec", "SmallVec<u32, 2>", "&mut v[0]", "v.clear()"), ("SmallVec", "SmallVec<u32, 2>", "AsRef::<[u32]>::as_ref(v)", "v.clear()"),
        ("String", "String", "v.as_str()", "v.clear()"), ("String", "String", "v.as_mut_str()", "v.clear()"), ("String", "String", "&**v", "v.clear()"), ("String", "String", "&v[0..1]", "v.clear()"), ("String", "String", "v.as_bytes()", "v.clear()"), ("String", "String", "AsRef::<str>::as_ref(v)", "v.clear()"), ("String", "String", "std::borrow::Borrow::<str>::borrow(v)", "v.clear()"),
        ("Box", "Box<u32>", "&**v", "drop(std::mem::replace(v, Box::new(1)))"), ("Box", "Box<u32>", "&mut **v", "drop(std::mem::replace(v, Box::new(1)))"), ("Box", "Box<u32>", "AsRef::<u32>::as_ref(v)", "drop(std::mem::replace(v, Box::new(1)))"), ("Box", "Box<u32>", "AsMut::<u32>::as_mut(v)", "drop(std::mem::replace(v, Box::new(1)))"),
        ("ScopePtr", "ScopePtr<u32>", "&**v", "drop(std::mem::replace(v, arg()))"), ("ScopePtr", "ScopePtr<u32>", "&mut **v", "drop(std::mem::replace(v, arg()))"),
    ]
    for p in ("Rc", "Arc", "Urc"):
        own += [(p, p + "<u32>", e, "drop(std::mem::replace(v, %s::new(1)))" % p) for e in ("&**v", "AsRef::<u32>::as_ref(v)", "std::borrow::Borrow::<u32>::borrow(v)", "%s::get_mut(v)" % p, "%s::make_mut(v)" % p)]
    for k, (n, t, get, kill) in enumerate(own):
        props = ("C05",) if n in ("Vec", "SmallVec") else ("C05", "C20") if n == "String" else ("C05", "C24") if n in ("Box", "ScopePtr") else ("C05", "C17") if "_mut" in get else ("C05", {"Rc": "C13", "Arc": "C14", "Urc": "C16"}[n])
        borrow(props, "%s: %s outlives %s" % (n, get, kill.split("(")[0]), "let r = %s; %s; use_it(r);" % (get, kill), "what %s gives stays usable after the %s changed or is gone" % (get, n), "(v: &mut %s)" % t, "let r = %s; use_it(r); %s;" % (get, kill))
    borrow(("C19", "C05"), "scope::current outlives its bound", "let r; { let x = 1; r = scope::current(&x); } use_it(r);", "the current scope is usable after the value it was bound to is gone", "()", "let x = 1; let r; { r = scope::current(&x); } use_it(r);")
    borrow(("C19", "C05"), "the new scope outlives its body", "let mut o: Option<&mut S> = None; scope::spawn(|_| S, |s| { o = Some(s); });", "the new scope is usable after its body has ended", "()", "let mut o: Option<u32> = None; scope::spawn(|_| S, |s| { o = Some(1); });")
    borrow(("C19", "C05"), "the previous scope outlives its use", "let mut o: Option<&dyn Scope> = None; scope::spawn(|p| { o = Some(p); S }, |s| { });", "the previous scope is usable without limit", "()", "let mut o: Option<u32> = None; scope::spawn(|p| { o = Some(1); S }, |s| { });")
    borrow(("C18",), "envelop names a longer scope", "let e: Envelope<'static, Arc<u32>> = a.envelop(s); use_it(e);", "an envelope outlives the scope it was made for", "<'a, R: ScopeRecv<'a>>(a: &Arc<u32>, s: &R)", "let e: Envelope<'a, Arc<u32>> = a.envelop(s); use_it(e);")
    borrow(("C18",), "Urc envelop names a longer scope", "let e: Envelope<'static, Urc<u32>> = a.envelop(s); use_it(e);", "an envelope outlives the scope it was made for", "<'a, R: ScopeRecv<'a>>(a: &Urc<u32>, s: &R)", "let e: Envelope<'a, Urc<u32>> = a.envelop(s); use_it(e);")
    borrow(("C18",), "received in a longer scope", "use_it(s.recv(e));", "an envelope is opened in a scope that outlives the one it names", "<'a, R: ScopeRecv<'static>>(e: Envelope<'a, Arc<u32>>, s: &R)", "use_it(e);")
    borrow(("C18",), "an envelope changes its scope", "let f: Envelope<'static, Arc<u32>> = e; use_it(f);", "an envelope outlives the scope it names", "<'a>(e: Envelope<'a, Arc<u32>>)", "let f: Envelope<'a, Arc<u32>> = e; use_it(f);")
    borrow(("C18",), "an envelope in a detached thread", "std::thread::spawn(move || { let _e = e; });", "an envelope outlives the scope it names", "<'a>(e: Envelope<'a, Arc<u32>>)", "use_it(e);")
    borrow(("C18",), "a thread scope that names a longer one", "has_recv::<std::thread::Scope<'s, 'e>, &'static ()>(s);", "a thread's scope receives envelopes of longer scopes", "<'s, 'e>(s: &'s std::thread::Scope<'s, 'e>)", "use_it(s);")
    M = ("E0382", "E0507", "E0505")
    for n, t in (("Box", "Box<u32>"), ("ScopePtr", "ScopePtr<u32>")):
        out.append(W(("C24", "C03"), n + "::into_inner twice", "use_it(b.into_inner()); use_it(b);", M, "the value of a %s is taken and the %s still owns it" % (n, n), "(b: %s)" % t, twin="use_it(b.into_inner());"))
    for n in ("Rc", "Arc", "Urc"):
        out.append(W(("C17",), n + "::try_unwrap keeps the pointer", "use_it(%s::try_unwrap(a)); use_it(a);" % n, M, "the value is taken out of a %s that is still there" % n, "(a: %s<u32>)" % n, twin="use_it(%s::try_unwrap(a));" % n))
    out.append(W(("C18",), "an envelope is opened twice", "use_it(s.recv(e)); use_it(e);", M, "one envelope gives its value twice", "<'a, R: ScopeRecv<'a>>(e: Envelope<'a, Arc<u32>>, s: &R)", twin="use_it(s.recv(e));"))
    out.append(W(("C18",), "Envelope literal", "let _ = Envelope::<'static, Rc<u32>> { val: arg::<Rc<u32>>(), _scope: PhantomData };", ("E0451", "E0560", "E0063", "E0423"), "an envelope of any value is put together by safe code"))
    out.append(W(("C20",), "String literal", "let _ = String { vec: arg::<Vec<u8>>() };", ("E0451", "E0560", "E0063"), "a string is put together from unchecked bytes"))
    out.append(W(("C20",), "String bytes", "s.vec.push(0xff);", ("E0616", "E0609"), "the bytes of a string are open to change", "(s: &mut String)"))
    out.append(W(("C24",), "Box pointer", "let _ = b.0;", ("E0616", "E0609"), "the pointer of a box is open", "(b: Box<u32>)"))
    return out


MORE = """
fn use_it<T>(_: T) {}
struct S;
impl Scope for S { fn alloc_for(&self, _: AllocSelector) -> &dyn std::alloc::GlobalAlloc { loop {} } }
fn has_recv<'e, R: ScopeRecv<'static>, X>(_: &R) {}
"""


def compile_client(work, name, ws, twin=False):
    """Compiles one function per witness; gives the error codes of each."""
    head = PRELUDE + MORE
    n0 = head.count("\n")
    lines = [w.text(k, (w.twin if w.twin is not None else "") if twin else w.body) for k, w in enumerate(ws)]
    p = os.path.join(work, name + ".rs")
    open(p, "w").write(head + "\n".join(lines) + "\n")
    r = sh(["rustc", "+nightly"] + FLAGS + ["--crate-name", name, "--crate-type", "rlib", "--emit=metadata", "--error-format=json", "--extern", "lokky=" + os.path.join(work, "liblokky.rmeta"), "-o", os.path.join(work, name + ".rmeta"), p])
    errs = {}
    other = []
    for l in r.stderr.split("\n"):
        if not l.startswith("{"):
            continue
        d = json.loads(l)
        if d.get("level") != "error":
            continue
        code = (d.get("code") or {}).get("code") or ("lifetime" if "lifetime" in d["message"] or "borrowed data" in d["message"] else None)
        sp = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
        if not sp:
            continue
        i = sp[0]["line_start"] - 1 - n0
        if os.path.basename(sp[0]["file_name"]) == name + ".rs" and 0 <= i < len(ws):
            errs.setdefault(i, []).append((code, d["message"]))
        else:
            other.append(d["message"])
    return errs, other


def where_of(repo, w):
    """Item of the library the witness is about, for the report."""
    m = re.search(r"(Arc|Weak|Urc|Rc|Fence|Envelope|Vec|SmallVec|String|Box|ScopePtr|scope)", w.name)
    f = {"Arc": "arc", "Urc": "urc", "Fence": "urc", "Rc": "rc", "Weak": "rc", "Envelope": "scope", "scope": "scope", "Vec": "vec", "SmallVec": "small_vec", "String": "string", "Box": "boxed", "ScopePtr": "ptr"}.get(m.group(1) if m else "", "lib")
    if "envelop" in w.name and not m:
        f = "scope"
    if "urc" in w.name:
        f = "urc"
    if "arc" in w.name:
        f = "arc"
    p = os.path.join(repo, "src", f + ".rs")
    ln = 1
    try:
        ls = open(p).read().split("\n")
        pats = []
        if w.codes == ("E0277",):
            ty, bound = w.name.rsplit(": ", 1)
            b = {"send": "Send", "sync": "Sync", "has_clone": "Clone", "has_copy": "Copy", "has_envelop": "Envelop<", "has_from": "From<", "has_deref_mut": "DerefMut", "has_as_mut": "AsMut<", "has_borrow_mut": "BorrowMut<", "has_default": "Default"}[bound]
            base = re.match(r"(?:\w+::)?(\w+)", ty).group(1)
            pats = [r"impl.*%s.* for (\w+::)*%s\b" % (re.escape(b), base), r"derive\(.*%s" % re.escape(b), r"struct %s\b" % base]
        else:
            fn = re.search(r"(\w+)(?:\(|$| )", w.name.split("::")[-1])
            pats = [r"fn %s\b" % (fn.group(1) if fn else "-")]
        for pat in pats:
            hit = [i for i, l in enumerate(ls) if re.search(pat, l)]
            if hit:
                ln = hit[0] + 1
                break
    except OSError:
        pass
    return "src/%s.rs:%d" % (f, ln)


def witness_rule(prop):
    def rule(work, repo, here):
        ws = [w for w in witnesses() if prop in w.props]
        phases = {}
        for w in ws:
            ph = "trait" if w.codes == ("E0277",) else "unsafe" if w.codes == ("E0133",) else "literal" if "E0451" in w.codes else "field" if "E0616" in w.codes else "borrow"
            phases.setdefault(ph, []).append(w)
        findings, undecided = [], []
        refused = {}
        for ph, l in sorted(phases.items()):
            left = list(l)
            # Twins: what differs only by the offending part must compile, otherwise the
            # refusal says nothing.
            for _ in range(6):
                errs, other = compile_client(work, "twin_" + ph, left, True)
                if not errs:
                    break
                for i in errs:
                    undecided.append("witness %r: its counterpart does not compile: %s" % (left[i].name, errs[i][0][1]))
                left = [w for i, w in enumerate(left) if i not in errs]
            if other:
                undecided.append("witnesses (%s): %s" % (ph, other[0]))
                continue
            for _ in range(8):
                errs, other = compile_client(work, "wit_" + ph, left)
                if other and not errs:
                    undecided.append("witnesses (%s): %s" % (ph, other[0]))
                    left = []
                    break
                # Errors of another kind hide the phase that matters.
                wrong = [i for i in errs if not any(c in left[i].codes for c, _ in errs[i])]
                if not wrong:
                    break
                for i in wrong:
                    undecided.append("witness %r is refused for another reason: %s" % (left[i].name, errs[i][0][1]))
                left = [w for i, w in enumerate(left) if i not in wrong]
            for i, w in enumerate(left):
                if i in errs:
                    refused[w.name] = "%s %s" % errs[i][0]
                    continue
                e1, o1 = compile_client(work, "one", [w])
                if e1 or o1:
                    c = (e1.get(0) or [(None, o1 and o1[0])])[0]
                    if c[0] in w.codes:
                        refused[w.name] = "%s %s" % c
                    else:
                        undecided.append("witness %r is refused for another reason: %s" % (w.name, c[1]))
                else:
                    findings.append(dict(cls="type", msg=w.why, where=where_of(repo, w), key=w.key or "witness:" + w.name, stack="accepted by the compiler: " + w.text(0, w.body), wit="", scenario=""))
        ev = {"witnesses_compiled": len(ws), "witnesses_refused": len(refused), "witness_rule": "each witness is a client function that would break the property; it must be refused by the compiler with the expected error while its counterpart without the offence is accepted", "refusals": refused}
        return findings, ev, undecided

    return rule


# ---------------------------------------------------------------- the two configurations

NOSTD = ["--cfg", 'feature="no_std"']


def strip(x, paths, std):
    """An item of rustdoc's description without positions and internal numbers."""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            if k in ("span", "docs", "links", "attrs", "provided_trait_methods"):
                continue
            if k == "id":
                p = paths.get(str(v))
                if p:
                    out["full"] = "::".join(p["path"])
                    if p["path"][0] == "std":
                        std.append("::".join(p["path"]))
                continue
            if k == "path" and "id" in x and str(x["id"]) in paths:
                continue
            out[k] = strip(v, paths, std)
        return out
    if isinstance(x, list):
        return [strip(y, paths, std) for y in x]
    return x


def show(t):
    """Short rendering of a type or trait of rustdoc's description."""
    if isinstance(t, dict):
        if "full" in t or "path" in t:
            return (t.get("path") or t.get("full") or "?").split("::")[-1]
        if len(t) == 1:
            k, v = next(iter(t.items()))
            if isinstance(v, str):
                return v
            return "%s %s" % (k, show(v)) if k not in ("resolved_path", "type") else show(v)
        return show(t.get("type") or t.get("name") or "")
    return str(t)


def public_items(path):
    d = json.load(open(path))
    ix, paths = d["index"], d["paths"]
    out, stdonly = {}, {}

    def emit(name, item, inner):
        std = []
        s = strip(inner, paths, std)
        sp = item.get("span") or {}
        name = name.replace(" ::", " ")
        key = name + " " + json.dumps(s, sort_keys=True)
        w = "%s:%s" % (re.sub(r".*/(src/)", r"\1", sp.get("filename", "src/lib.rs")), (sp.get("begin") or ["?"])[0])
        (stdonly if std else out)[key] = (name, w)

    seen = set()

    def walk(i, at):
        it = ix.get(str(i))
        if it is None or (i, at) in seen:
            return
        seen.add((i, at))
        if it["visibility"] not in ("public", "default"):
            return
        kind, inner = next(iter(it["inner"].items()))
        name = at + ("::" + it["name"] if it.get("name") else "")
        if kind == "module":
            for j in inner["items"]:
                walk(j, name)
        elif kind == "use":
            tgt = ix.get(str(inner["id"]))
            if inner.get("is_glob"):
                if tgt and "module" in tgt["inner"]:
                    for j in tgt["inner"]["module"]["items"]:
                        walk(j, at)
            elif tgt:
                walk(inner["id"], at)
        elif kind in ("struct", "enum", "union"):
            emit("%s %s" % (kind, name), it, {k: v for k, v in inner.items() if k == "generics"})
            ids = inner.get("fields", []) or inner.get("variants", [])
            k = inner.get("kind")
            if isinstance(k, dict):
                ids = (k.get("plain") or {}).get("fields", []) or k.get("tuple", [])
            for j in ids:
                if j is not None:
                    walk(j, name)
            for j in inner["impls"]:
                impl = ix.get(str(j))
                if impl is None:
                    continue
                m = impl["inner"]["impl"]
                if m.get("blanket_impl"):
                    continue
                if m.get("trait") is None:
                    for q in m["items"]:
                        qi = ix.get(str(q))
                        if qi and qi["visibility"] == "public":
                            qk, qv = next(iter(qi["inner"].items()))
                            emit("%s %s::%s" % (qk, name, qi["name"]), qi, {"impl": m["generics"], "for": m["for"], "item": qv})
                else:
                    head = {k: v for k, v in m.items() if k in ("generics", "trait", "for", "is_negative", "is_unsafe")}
                    assoc = {}
                    for q in m["items"]:
                        qi = ix.get(str(q))
                        if qi and "assoc_type" in qi["inner"]:
                            assoc[qi["name"]] = qi["inner"]
                    emit("impl %s for %s" % (show(m["trait"]), show(m["for"])), impl, {"head": head, "assoc": assoc})
        elif kind == "variant":
            k = inner.get("kind")
            k = k if isinstance(k, dict) else {}
            ids = k.get("tuple", []) or (k.get("struct") or {}).get("fields", [])
            emit("variant " + name, it, {"kind": sorted(k), "n": len(ids), "discriminant": inner.get("discriminant")})
            for j in ids:
                if j is not None:
                    walk(j, name)
        elif kind == "trait":
            emit("trait " + name, it, {k: v for k, v in inner.items() if k in ("generics", "bounds", "is_unsafe", "is_auto")})
            for j in inner["items"]:
                walk(j, name)
            for j in inner["implementations"]:
                impl = ix.get(str(j))
                if impl is None:
                    continue
                m = impl["inner"]["impl"]
                emit("impl %s for %s" % (show(m["trait"]), show(m["for"])), impl, {"head": {k: v for k, v in m.items() if k in ("generics", "trait", "for")}})
        else:
            emit("%s %s" % (kind, name), it, inner)

    walk(d["root"], "")
    return out, stdonly


def no_std(work, repo, here):
    src = os.path.join(repo, "src/lib.rs")
    findings, undecided = [], []
    ev = {}
    meta = os.path.join(work, "libno_std.rmeta")
    r = sh(["rustc", "+nightly", "--crate-name", "lokky", "--crate-type", "rlib", "--emit=metadata", "--error-format=json", "-o", meta, src] + FLAGS + NOSTD)
    if r.returncode:
        d = sh(["rustc", "+nightly", "--crate-name", "lokky", "--crate-type", "rlib", "--emit=metadata", "-o", meta + "2", src] + FLAGS)
        if d.returncode:
            return [], {}, ["the library does not compile in its default configuration"]
        seen = 0
        for l in r.stderr.split("\n"):
            if not l.startswith("{"):
                continue
            e = json.loads(l)
            if e.get("level") != "error" or not e["spans"] or seen > 5:
                continue
            seen += 1
            sp = ([s for s in e["spans"] if s["is_primary"]] or e["spans"])[0]
            f = os.path.relpath(sp["file_name"], repo) if os.path.isabs(sp["file_name"]) else sp["file_name"]
            findings.append(dict(cls="build", msg="does not build with the no_std feature: " + e["message"], where="%s:%d" % (f, sp["line_start"]), key="no_std-build:%s:%s" % (f, e["message"]), stack="", wit="", scenario=""))
        return findings, {"no_std_builds": False}, undecided
    ls = sh(["rustc", "+nightly", "-Zls=root", meta]).stdout
    deps = re.findall(r"^\d+ (\w+?)-[0-9a-f]{16} ", ls, re.M)
    ev["no_std_builds"] = True
    ev["no_std_links"] = deps
    if not deps:
        undecided.append("the crates that the no_std configuration links could not be read")
    if "std" in deps:
        ln = [i + 1 for i, l in enumerate(open(src).read().split("\n")) if "std" in l and "extern" in l]
        findings.append(dict(cls="link", msg="with the no_std feature the library still links the standard library", where="src/lib.rs:%d" % (ln[0] if ln else 1), key="no_std-links-std", stack="", wit="", scenario=""))
    docs = []
    for n, extra in (("d", []), ("n", NOSTD)):
        o = os.path.join(work, "doc_" + n)
        r = sh(["rustdoc", "+nightly", "--crate-name", "lokky", "-Zunstable-options", "--output-format", "json", "-o", o, src] + FLAGS + extra)
        if r.returncode:
            undecided.append("public items could not be listed: " + r.stderr[-300:])
            return findings, ev, undecided
        docs.append(public_items(os.path.join(o, "lokky.json")))
    (a, astd), (b, bstd) = docs
    ev["public_items_default"] = len(a)
    ev["public_items_no_std"] = len(b)
    ev["public_items_that_name_std"] = sorted(n for n, w in astd.values())
    ev["no_std_rule"] = "metadata of the library compiled with the feature names no crate std, and the public items (with signatures, bounds and impls, from rustdoc's description) of both configurations are equal except for those whose signature names a type of std"
    for x, y, what in ((a, b, "is missing or different with the no_std feature"), (b, a, "exists in this form only with the no_std feature")):
        for k in sorted(set(x) - set(y)):
            n, w = x[k]
            findings.append(dict(cls="items", msg="public item `%s` %s" % (n, what), where=w, key="items:" + n, stack="", wit="", scenario=""))
    return findings, ev, undecided


RULES = {"C23": no_std}
for _p in ("C03", "C05", "C08", "C13", "C14", "C16", "C17", "C18", "C19", "C20", "C24"):
    RULES[_p] = witness_rule(_p)
