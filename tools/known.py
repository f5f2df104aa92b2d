import json,subprocess
names=["e-acute","A-ring","angstrom","fi-ligature","fullwidth-a","hangul","katakana-ga","nbsp","superscript-2","trezor-japanese","umlaut-word","reordered-marks"]
known=[]
for k in ("passphrase","mnemonic"):
    for n in names:
        known.append({"property":"C05","case":f"NFKD {k} {n}","what":f"bip39.NewSeed stretches a {k} that is not in NFKD form ({n}) as typed instead of its NFKD form","match":"NOT-NFKD"})
known.append({"property":"C28","case":"stale results behind an unreadable root key","what":"examples/ui/one onRootKeyStrChange: replacing the root key by text that is no extended key leaves the previous results on display (until a field changes)","match":""})
known.append({"property":"C29","case":"no selection when results come back","what":"examples/ui/one onKeyPathChange: when the results go away the selection becomes -1 and stays there, so results that come back are shown without a selected one until an arrow or a click sets it","match":""})
log={l.split(' ',1)[1]:l.split(' ',1)[0] for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()}
F=[
("C23 C30","pad public point coordinates to 32 bytes in AddrHex","AddrHex hashed fewer than 64 bytes, giving a wrong address, whenever a coordinate of the public point begins with a zero byte"),
("C07","report random source failures from NewEntropy","NewEntropy and GenerateMnemonic returned zero or partly zero entropy when the random source failed"),
("C07","return no seed when the random source fails","bip32.NewSeed handed out the partly filled buffer along with the error"),
("C19 C22","reject path components that do not fit in 32 bits","components of 2^32 and above were accepted and reduced to another index (m/4294967296 meant m/0)"),
("C20","compare path depth without truncating the path length","paths of 256 or more values answered lookups and edits against their length modulo 256"),
("C20","fail path edits that do not give a valid path","replacing depth 0 or giving m/0/0' style paths returned an unusable path and no error"),
("C22","refuse key ranges whose end precedes their start","a reversed range returned no error and discarded the entries generated before"),
("C11 C12 C17 C21 C22","pass on child derivation errors from paths and ranges","DeriveBIP32Result and GenerateRange ignored derivation errors and listed empty or wrong keys"),
("C22","derive key ranges as siblings below the base key","each entry of a range was derived from the previous entry (m/0, m/0/1, m/0/1/2) instead of from the base key"),
("C17","refuse to derive children below depth 255","the depth of a child of a depth-255 key wrapped to 0, so it passed for a master key"),
("C12","report unusable child derivation results as errors","a hash left half not below the group order was used for private and public children (zero for private ones only), and the point at infinity was returned as a public child"),
("C15","validate the payload of deserialized extended keys","keys with scalars outside [1,n-1], payloads off the curve or with a wrong prefix, versions of the other side, or depth 0 with a parent or child number were accepted"),
("C24 C26","do not append to the caller's backing array","AddChecksumDblSha256ToBytes and Deserialize wrote behind the end of the slice they were given"),
("C12","pass on master key errors from RootKeyFromSeed","RootKeyFromSeed dereferenced nil when the seed gives no usable master key"),
("C04","size mnemonic byte arrays by words, not by spaces","MnemonicToByteArray padded its result by the number of blanks in the sentence"),
("C04","derive the same seed however the words of a mnemonic are spaced","NewSeedWithErrorChecking and DeriveSeedFromMnemonic gave another seed for the same words spaced differently"),
("C18","list P2PKT among the address encodings of Nexa Testnet","the Nexa Testnet entry lacked the P2PKT encoding of the shipped SLIP-0132 table"),
("C18","version bytes without purpose or coin digits are not valid","IsValid accepted paths such as m/'/' whose purpose and coin cannot be read"),
]
fixed=[]
for ps,m,w in F:
    h=log['fix: '+m]
    for p in ps.split(): fixed.append(f"fixed: property={p} {h} {w}")
json.dump({"known":known,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1)
