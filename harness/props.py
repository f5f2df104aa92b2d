import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)
B39='bip39/bip39.go'; B32='bip32/bip32.go'; U='util/util.go'; KP='util/key_path.go'; RV='bip32/reg_ver_bytes.go'; PT='bip32/path.go'; UT='bip32/utils.go'; UI='examples/ui/one/main.go'
p('C01','Entropy encodes to the BIP-39 sentence',
 "For every entropy of 128, 160, 192, 224 or 256 bits and whichever 2048-word list is active, the generated mnemonic is the single-space-joined words whose positions are the consecutive 11-bit groups of the entropy followed by the first (bits/32) bits of its SHA-256. Entropy of any other length is rejected with an error and an empty sentence.",
 ['inputs','configurations'],'every entropy value of the five sizes, every active word list, every other byte length',
 'The tests encode 24 fixed vectors with the English list only; zero-leading, bit-boundary and per-size checksum widths are each hit by a handful of values.',
 [B39],[('NewMnemonic / addChecksum / validateEntropyBitSize',B39)],[('wordList','active list','bip39/bip39.go')],['NewMnemonic return values'])
p('C02','Decoding inverts encoding and accepts exactly the right checksums',
 "A sentence of 12, 15, 18, 21 or 24 words of the active list is accepted if and only if its final (words/3) bits equal the leading bits of the SHA-256 of the bits before them. When accepted, the entropy returned has exactly (words/3*4) bytes, leading zeros included, and encodes back to the same words; the byte-array form is that entropy followed by the checksum bits.",
 ['inputs'],'every sequence of list words of each supported length',
 'Tests round-trip 1000 random entropies and reject two bad checksums; they never establish that exactly one in 2^(words/3) sentences is accepted.',
 [B39],[('EntropyFromMnemonic, MnemonicToByteArray, checksum mask and shift tables',B39)],None,['EntropyFromMnemonic, MnemonicToByteArray, IsMnemonicValid'])
p('C03','Malformed mnemonics are refused by every entry point alike',
 "A sentence with a word count other than 12, 15, 18, 21 or 24, with any token that is not exactly a word of the active list, or with a wrong checksum is refused with an error, never a panic and never with entropy or seed bytes. All validating entry points (validity test, entropy, byte array, checked seed, hex seed) always give the same verdict on the same sentence.",
 ['inputs'],'every string offered as a mnemonic',
 'Sixteen fixed bad sentences are tested, on three of the five entry points.',
 [B39,U],[('splitMnemonicWords, reverse map lookup',B39),('DeriveSeedFromMnemonic',U)],None,['the five validating calls'])
p('C04','Spacing between mnemonic words never changes the outcome',
 "For every valid mnemonic, the same words separated or surrounded by any amount and kind of white space give the same validity, the same entropy, the same byte array and, through the seed functions that validate their input, the same seed.",
 ['inputs'],'every mnemonic and every way of spacing its words (blanks, tabs, newlines, ideographic spaces; leading, trailing, doubled)',
 'No test uses anything but single blanks.',
 [B39,U],[('strings.Fields in splitMnemonicWords; MnemonicToByteArray; NewSeedWithErrorChecking',B39),('DeriveSeedFromMnemonic',U)])
p('C05','Seeds are the BIP-39 stretch of mnemonic and passphrase',
 "For every mnemonic and passphrase the seed is the 64-byte PBKDF2-HMAC-SHA512 output with 2048 iterations, the NFKD mnemonic as password and \"mnemonic\" followed by the NFKD passphrase as salt. The checked and hex-encoded variants return that same seed for every valid mnemonic.",
 ['inputs'],'every mnemonic and passphrase string, including empty ones, ones longer than a hash block and non-ASCII ones',
 'Tests use the single passphrase TREZOR with 24 English mnemonics.',
 [B39,U],[('NewSeed, NewSeedWithErrorChecking',B39),('DeriveSeedFromMnemonic',U)])
p('C06','Word lists are the official ones and switching lists leaves no residue',
 "Each of the ten shipped word lists contains exactly the 2048 distinct official words in official order. After any history of selecting word lists, encoding, decoding, index lookup and list retrieval behave exactly as if only the most recently selected list had ever been set.",
 ['histories','configurations'],'every sequence of list selections interleaved with uses',
 'Only the default English list is ever active in a test; no test selects a list.',
 [B39,'bip39/wordlists/english.go','bip39/wordlists/japanese.go'],[('SetWordList, GetWordList, GetWordIndex',B39),('CRC checks at package init','bip39/wordlists')],[('wordList, wordMap','active list and its inverse',B39)])
p('C07','Fresh entropy is all random, of the requested size, or an error',
 "Every successful request for entropy, a seed or a new mnemonic returns exactly the requested number of bits or words, all of them taken from the system random source. If that source fails or ends early at any point, the caller gets an error and no entropy or mnemonic, and unsupported sizes or word counts are refused.",
 ['fault_sequences','inputs'],'every way the random source can answer (any split into short reads, an error at any byte) and every requested size or word count',
 'Tests never make the random source fail and accept any bytes as random.',
 [B39,B32,U],[('NewEntropy',B39),('NewSeed',B32),('GenerateMnemonic',U)])
p('C08','Master keys follow BIP-32 for every seed',
 "For every seed the master key's private key and chain code are the left and right halves of HMAC-SHA512 keyed with \"Bitcoin seed\", with depth, parent fingerprint and child number zero and the Bitcoin mainnet private version. The hex-seed front end accepts exactly the hexadecimal strings of at least 16 bytes, in either letter case, and yields the same key.",
 ['inputs'],'every seed byte string and every string offered as a hex seed',
 'Six seeds are tested; the hex front end has no test.',
 [B32,U],[('NewMasterKey',B32),('RootKeyFromSeed',U)])
p('C09','Private child derivation follows BIP-32',
 "For every valid private extended key of a registered version and every child index, hardened or not, the derived child's private key, chain code, depth, child number, parent fingerprint and version are those BIP-32 prescribes, including when values have leading zero bytes. The parent key is unchanged.",
 ['inputs','histories'],'every parent key, index and chain of derivations',
 'Three published vectors with eleven derivation steps; leading zeros occur in one.',
 [B32,UT],[('NewChildKey, getIntermediary, addPrivateKeys, compressPublicKey','bip32')])
p('C10','Public derivation agrees with private derivation',
 "For every private extended key and every non-hardened index, deriving the child and then taking its public key gives exactly the same extended key as taking the public key and then deriving the child. Extracting the public extended key keeps depth, fingerprint, child number and chain code, swaps the version for its public counterpart and holds the compressed curve point of the private key; extracting it again changes nothing.",
 ['inputs','histories'],'every private key, non-hardened index, and every interleaving of derivation and public-key extraction along a path',
 'One xpub with 20 children is tested, and only its key bytes are compared.',
 [B32,UT],[('NewChildKey, PublicKeyExtended, addPublicKeys, ExpandPublicKey','bip32')])
p('C11','Public keys give no secrets and no hardened children',
 "A public extended key never yields a private key, and every attempt to derive a hardened child from one, directly or through a key range, fails with an error for every index from 2^31 up. The extended public key of a private key contains nothing of the private key bytes and reports itself as public.",
 ['inputs','histories'],'every public extended key, every index, every sequence of operations starting from one',
 'One key and two hardened indexes are tested, none through the range API.',
 [B32,KP],[('IsPrivate, NewChildKey, PrivateKeyHex, PublicKeyExtended',B32),('GenerateRange',KP)])
p('C12','Unusable derivation results are errors, never keys',
 "Whenever the hash output of a master or child derivation is zero or not below the group order, or the resulting private key would be zero or the resulting public key the point at infinity, the operation reports an error; private and public derivation agree on it. Path, range and seed front ends pass such an error on instead of returning keys or crashing.",
 ['fault_sequences','inputs'],'every value the keyed hash can return at every step of a derivation',
 'These hash outputs have probability near 2^-127 and cannot be produced by choosing inputs.',
 [B32,UT,U,KP],[('ValidatePrivateKey, validateChildPublicKey',UT),('NewMasterKey, NewChildKey',B32),('RootKeyFromSeed, DeriveBIP32Result',U),('GenerateRange',KP)])
p('C13','Extended keys survive serialization unchanged',
 "For every valid extended key the serialized form is its 78 bytes followed by the first 4 bytes of their double SHA-256, the text form is the Base58 encoding of those 82 bytes, and reading either form back yields the identical key. The all-zero key does not serialize, and every text that is accepted re-encodes to exactly the same text.",
 ['inputs'],'every extended key and every accepted serialized text',
 'About a dozen keys are round-tripped, all with the two Bitcoin mainnet versions.',
 [B32,UT],[('Serialize, B58Serialize, String, Deserialize, B58Deserialize',B32)])
p('C14','Damaged serialized keys are detected',
 "Changing any single byte or character of a serialized extended key, swapping two unequal neighbouring characters, or making it shorter or longer makes reading it fail with an error; the same holds for text with characters outside the Base58 alphabet. No input, however malformed, makes reading crash.",
 ['inputs'],'every serialized key, every position and every replacement value, every length',
 'Three damaged strings are tested.',
 [B32,UT],[('Deserialize checksum comparison',B32),('ChecksumDblSha256',UT)])
p('C15','Imported extended keys are really keys',
 "Reading a serialized extended key with a correct checksum succeeds only if its payload is a private key between 1 and the group order minus 1, or a compressed encoding (prefix 02 or 03) of a point on the curve; a registered private version goes only with a private payload and a registered public version only with a public one; and a depth-zero key has zero fingerprint and child number. Every key satisfying this with a registered version is accepted, and the validity test on keys gives the same verdict.",
 ['inputs'],'every 82-byte string with a correct checksum',
 'No test offers a correctly checksummed but structurally invalid key (BIP-32 test vector 5 is absent).',
 [B32,UT],[('Deserialize, IsValid',B32),('ValidatePrivateKey',UT)])
p('C16','Derivation stays inside its version family',
 "For every registered version, children of a private key keep its private version, its extended public key carries the public version registered for the same coin and purpose, and children of public keys keep that public version. Keys with a version that is not registered on the matching side are refused by derivation with an error.",
 ['inputs','configurations'],'every registered and every unregistered 4-byte version, private and public, at any depth and whatever order the registry was built in',
 'All derivation tests use the Bitcoin mainnet versions.',
 [B32,RV],[('NewChildKey, PublicKeyExtended version lookup',B32),('registry maps built at init',RV)],[('PvtFlagToHDBytesSlice, PubFlagToHDBytesSlice','version registry',RV)])
p('C17','Depth counts derivations and never wraps',
 "The depth of a key equals the number of derivations from the master key, for every depth up to 255. Deriving below depth 255 fails with an error, so no derived key can pass for a master key, whichever derivation interface is used.",
 ['histories','inputs'],'every chain of derivations of any length, private and public, and every path of any depth',
 'Tests go at most five levels deep.',
 [B32,U,KP],[('setDepth in NewChildKey',B32),('DeriveBIP32Result',U),('GenerateRange',KP)])
p('C18','The version registry is SLIP-0132, consistently indexed',
 "The registered version entries (coin, private and public version, address encodings, and the path where SLIP-0132 gives one) are exactly those of the shipped SLIP-0132 table. Every index (by private version, public version, purpose, full purpose, coin type, path, and the flat list) contains every entry once and under its own key, and an entry counts as valid exactly when its purpose and coin type can be read, the full values being those plus 2^31. It counts as registered exactly when its path, white space ignored, is a registered one.",
 ['inputs','configurations'],'every registered entry and every index; every path string in a version entry',
 'The test only checks that indexed entries parse and sit under their own purpose.',
 [RV,'bip32/slip-0132.md'],[('init building the indexes; VersionBytes.PurposeVal, CoinVal, PurposeValFull, CoinValFull',RV)])
p('C19','Paths parse to exactly the indexes they spell',
 "A path is valid exactly when, ignoring white space, it is m or M followed by components /N' and then components /N with every N' below 2^31 and every N below 2^32; it then parses to the list starting with 0 for the root, with 2^31 added for each apostrophe. No out-of-range number is ever reduced to another index, and formatting only removes white space.",
 ['inputs','configurations'],'every string, on every word size',
 'Paths have no tests at all.',
 [PT],[('PathRegex, ValuesAtDepth, IsValid, String',PT)])
p('C20','Path lookups and edits hit exactly one component',
 "For every valid path and every depth it has, looking up a component returns its parsed value; replacing one yields a valid path whose parsed values differ from the original only at that depth, where they equal the new value. If the depth does not exist, is the root, or the replacement would not give a valid path, an error is returned and no edited path.",
 ['inputs'],'every path (up to any length), every depth 0..255 and every 32-bit replacement value',
 'Paths have no tests at all.',
 [PT],[('ValueAtDepth, ReplaceValueAtDepth',PT)])
p('C21','Path derivation lists every key on the way, or fails',
 "For a usable private master key and a valid path, the result lists one entry for the root and one per path component, in order; each entry's label spells the indexes taken so far with apostrophes for hardened ones and its key is the one those derivations give. An unset, public, non-root or invalid key, an invalid path, or any failing step gives an error and no entries, and the generator always uses the root key set last.",
 ['inputs','histories'],'every root key, every path, every history of setting root keys and deriving',
 'The util package has no tests.',
 [U],[('Generator.SetRootKey, RootKey, DeriveBIP32Result',U)],[('Generator.rootKey','current root key',U)])
p('C22','Key ranges cover exactly the requested indexes, or fail',
 "Generating a key range from start to end over a valid base key and path yields exactly end minus start entries: the children of the base key at indexes start, start+1, ..., end-1 in order, each labelled with the base path followed by that index (less 2^31, with an apostrophe, when hardened). An empty or reversed range, an invalid base key or path, or any failing derivation gives an error and leaves the previously generated entries as they were.",
 ['inputs','histories'],'every start, end, base key and path, including ranges that touch 2^31 and repeated generation on one object',
 'The util package has no tests.',
 [KP],[('GenerateRange',KP)],[('KeyPaths','generated entries',KP)])
p('C23','Ethereum addresses are right for every key',
 "For every extended key the hex address is the last 20 bytes of the Keccak-256 of the 64-byte uncompressed public point (both coordinates left-padded to 32 bytes), as 40 lower-case hex digits, and is the same computed from the private or the public extended key. Expanding a compressed public key yields the unique curve point it encodes.",
 ['inputs'],'every key, in particular every pattern of leading zero bytes in either coordinate and both parities',
 'Addresses have no tests; one key in 128 has a leading zero byte in a coordinate.',
 [KP,UT],[('AddrHex',KP),('ExpandPublicKey',UT)])
p('C24','Base58Check addresses are right for every key and version byte',
 "For every extended key and version byte the Base58Check address is Base58(version, RIPEMD160(SHA256(compressed public key)), 4-byte double-SHA256 checksum), the same from the private or the public extended key. The hash, checksum and append-checksum helpers compute exactly those functions for every input and leave their input untouched.",
 ['inputs'],'every key and all 256 version bytes; every byte string',
 'Addresses have no tests.',
 [KP,UT],[('AddrP2SH',KP),('HashRipeMD160onSha256, ChecksumDblSha256, AddChecksumDblSha256ToBytes',UT)])
p('C25','The coin registry is SLIP-0044, consistently indexed',
 "Every named, unreserved row of the shipped SLIP-0044 table is in the coin registry with its symbol and name, with coin type and path component agreeing (path component = type + 2^31), and nothing else is. Lookups by type, by path component and by name always return a registered coin with exactly that type, component or name, and every registered coin is found by type and component; validity of a coin means a non-blank label and agreeing numbers.",
 ['inputs','configurations'],'every table row, every registry entry, every coin value',
 'One test checks validity of the list entries only.',
 ['bip44/coins.go','bip44/coin.go','bip44/slip-0044.md'],[('init repair and indexes','bip44/coins.go'),('IsValid, String','bip44/coin.go')])
p('C26','Results depend only on arguments, and arguments are never modified',
 "Apart from word-list selection and random generation, every operation gives the same result for the same arguments whatever was called before, in this or any other process. No operation modifies the memory passed to it (including bytes behind a slice's end), and modifying returned bytes, numbers, keys or entries never affects later results (the active word list and a generator's root key pointer, which are handed out as such, excepted).",
 ['histories'],'every sequence of calls over every mix of colliding arguments',
 'Tests call each function in one fixed order and never look at aliasing.',
 [B32,B39,UT,U,KP],[('absence of caches and shared scratch; copying of inputs','bip32, bip39, util')])
p('C27','Concurrent use gives sequential results',
 "Calls from several goroutines at once (encoding, decoding, seed stretching, key derivation, serialization, path handling, addresses), on shared or separate keys, give each caller exactly the result it would get alone, with no data race, deadlock or crash, as long as nobody selects a word list meanwhile.",
 ['schedules'],'every interleaving of concurrent calls',
 'All tests are single-threaded.',
 [B32,B39,UT,RV,PT,U,KP],[('package-level data is read-only after init','bip32, bip39, bip44')],[('last11BitsMask, wordMap, curveParams, PathRegex, registries','shared package data','bip32, bip39')])
p('C28','The example app never shows data that does not belong together',
 "After every user action in the example app, a displayed seed is the one of the displayed mnemonic and passphrase whenever the mnemonic field is not empty (and empty if that mnemonic is invalid), a displayed root key is the one of the displayed seed whenever the seed field is not empty, and every displayed result is derived from the displayed root key along the displayed path (or just m if the path is invalid). When the root key field does not hold a usable private master key, no results are displayed.",
 ['histories'],'every sequence of user edits, clicks and regenerations',
 'The example app has no tests.',
 [UI],[('on...Change handlers and the dispatch in loop',UI)],[('bps, mnemonic, seed, rootKeyStr, derivationStr, keyPathTabs','UI state',UI)])
p('C29','The example app always shows one selected result and lets you reach all',
 "Whenever the example app has results, exactly one is selected and its path, extended keys, key hex and address are the ones shown; the arrow buttons move the selection by one and stop at the ends, and clicking a result selects it. The generate button produces a valid mnemonic of the chosen number of words, and after any action the app comes to rest instead of redrawing forever.",
 ['histories'],'every sequence of user actions and frame times',
 'The example app has no tests.',
 [UI,'examples/ui/one/slider.go'],[('selection clamp in onKeyPathChange, arrow and tab handlers, tabsSlider',UI),('Slider.Layout','examples/ui/one/slider.go')],[('keyPathTabs.selected','selected tab',UI)])
p('C30','From words to wallet: the whole pipeline is interoperable',
 "For every mnemonic, passphrase, registered coin, account, change and address index, going from mnemonic to seed, root key, BIP-44 path and leaf key through the library yields the same extended keys, private key and addresses as BIP-39, BIP-32 and BIP-44 prescribe, and the path built for a coin from its registry entry parses back to that coin.",
 ['inputs','configurations'],'every mnemonic and passphrase, every registered coin, every account/change/index',
 'No test crosses package boundaries.',
 [U,KP,B32,B39,'bip44/coins.go'],[('DeriveSeedFromMnemonic, RootKeyFromSeed, DeriveBIP32Result',U),('AddrHex, AddrP2SH',KP)])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
from collections import Counter
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    n=x['statement'].count('. ')+1
    assert n<=3,(x['id'],n)
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
