#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after changing the texts below)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T, W, F, S = 'bit/transaction.py', 'bit/wallet.py', 'bit/format.py', 'bit/network/services.py'
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))


prop('C01', 'Base58 and Base58Check are lossless and reject everything non-canonical',
     'Encoding any byte string to Base58 or Base58Check and decoding it gives the same bytes back, and the text is the standard one (one "1" per leading zero byte). '
     'Decoding refuses, with ValueError, any text with a character outside the alphabet and any Base58Check text whose checksum does not match its payload.',
     ['inputs'], 'every byte string of 1..38 bytes (14 lengths quick, all in thorough, payloads up to 78) and every text with a foreign character or wrong checksum',
     'Tests decode a handful of fixed strings; leading zeros, lengths and single-character corruption are a space of 58^n.',
     ['bit/base58.py'], [('b58encode / b58decode', 'bit/base58.py'), ('b58encode_check / b58decode_check', 'bit/base58.py')],
     'Known finding: an all-zero payload gains a byte when decoded (pinned by the tests).')
prop('C02', 'Segwit addresses encode and decode exactly as BIP173 says',
     'Every witness version and program of a valid length encodes to the BIP173 text for its network and decodes back to the same version and program, upper and lower case alike. '
     'Every text that is not valid by BIP173 (mixed case, foreign characters, wrong padding, program length, version or checksum) is refused.',
     ['inputs'], 'every witness program of 2..40 bytes with version 0..16 for three prefixes, and every corruption class',
     'Tests list the BIP vectors; the padding, case and length rules quantify over all programs.',
     ['bit/base32.py', F], [('bech32_decode / bech32_encode', 'bit/base32.py'), ('decode / encode / convertbits', 'bit/base32.py')])
prop('C03', 'A segwit address with a few wrong characters is never accepted',
     'If one or two (in the deeper exploration three) characters of the data part of a valid segwit address are replaced by other characters of the alphabet, or its prefix by that of another network, the address is refused and no script is derived from it.',
     ['inputs'], 'every valid v0 address of 20- and 32-byte programs and every substitution of the stated number of characters',
     'The number of (address, corruption) pairs is astronomically large; tests contain a few invalid vectors.',
     ['bit/base32.py'], [('bech32_polymod checksum', 'bit/base32.py'), ('bech32_verify_checksum', 'bit/base32.py')])
prop('C04', 'An address maps to exactly its own script and network, all else is refused',
     'For every P2PKH, P2SH and segwit address of main- or testnet, the derived output script is the standard template around the hash in the address, and the network is the one of its version. '
     'Texts that are not valid addresses (other version bytes, payloads that are not 20 bytes, bad checksums, unknown prefixes) raise ValueError instead of giving a script.',
     ['inputs'], 'every 20-byte hash under every version byte, every witness program, every malformed payload length',
     'Tests check about ten addresses; paying a wrong script loses coins for whichever input it happens on.',
     [F, T, 'bit/base58.py', 'bit/base32.py'], [('address_to_scriptpubkey', T), ('get_version', F), ('address_to_public_key_hash', F)])
prop('C05', 'WIF carries secret, network and compression flag without loss',
     'Exporting a 32-byte secret with any network and compression flag to WIF gives the standard text, and importing that text restores all three. '
     'A text with a wrong checksum, version byte or character is refused with ValueError.',
     ['inputs'], 'every 32-byte secret, both networks, both flags; every wrong version, checksum and foreign character',
     'Tests use a few fixed keys; secrets with particular bytes (such as a trailing 01, or leading zeros) are what separates right from wrong.',
     [F, W], [('bytes_to_wif / wif_to_bytes', F), ('wif_to_key', W)])
prop('C06', 'Public keys map to exactly the standard addresses',
     'The address of a public key is Base58Check of the network version and the hash of exactly those bytes, the nested segwit address is the P2SH of its witness program, and multisig addresses are those of the redeem script. '
     'Keys of any other length than 33 or 65 bytes (33 for segwit) are refused with ValueError.',
     ['inputs'], 'every 33- and 65-byte key, key lengths 0..70, both networks, multisig of up to several keys',
     'Tests compare a few fixed keys with fixed addresses.',
     [F, W], [('public_key_to_address', F), ('public_key_to_segwit_address', F), ('multisig_to_address / multisig_to_segwit_address', F)])
prop('C07', 'Multisig redeem scripts are the exact m-of-n template or are refused',
     'For public keys and a threshold m with 1 <= m <= n the redeem script is OP_m, the keys in the given order, OP_n, OP_CHECKMULTISIG, of at most 520 bytes. '
     'Thresholds outside that range, oversize scripts and malformed keys raise an error instead of giving a script, and a wallet only accepts its own key as one of the keys.',
     ['inputs', 'configurations'], 'every key content, m and n up to 16, mixed compressed and uncompressed keys, both networks',
     'A wrong template makes funds unspendable; tests build one or two scripts.',
     [F, W], [('multisig_to_redeemscript', F), ('MultiSig.__init__', W)])
prop('C08', 'Compact integers and script pushes are encoded minimally and read back',
     'Every integer below 2^64 is encoded as the shortest Bitcoin compact integer, and reading that encoding followed by any bytes gives the integer and exactly the remaining bytes. '
     'Every data length below 2^32 gets the shortest standard script push prefix.',
     ['inputs'], 'every integer 0..2^64-1, every trailing data, every push length 0..2^32-1',
     'Tests sample the boundaries they thought of.',
     ['bit/utils.py'], [('int_to_varint / read_var_int', 'bit/utils.py'), ('script_push', 'bit/utils.py')])
prop('C09', 'Deserialising and serialising a transaction changes nothing',
     'Any valid transaction, with or without witness data, deserialises into its fields and serialises back to the same bytes, from hex text and from bytes alike. '
     'No script, amount, sequence number, witness item, version or lock time is changed, and deserialised objects are equal exactly if all of these are.',
     ['inputs'], 'every content of the fields for the listed shapes of inputs, outputs and witness items, script lengths across all compact-integer sizes',
     'Tests round-trip a few recorded transactions.',
     [T, 'bit/utils.py'], [('deserialize', T), ('TxIn / TxOut / TxObj.__bytes__', T), ('read_var_string / read_segwit_string', 'bit/utils.py')])
prop('C10', 'The transaction id is that of the transaction without its witness',
     'The computed transaction id is the byte-reversed double SHA-256 of the serialisation without marker, flag and witness, so that adding or changing witness data never changes it.',
     ['inputs'], 'every transaction of the listed shapes', 'Tests hash two recorded transactions.',
     [T], [('calc_txid', T), ('TxObj.legacy_repr', T)])
prop('C11', 'Every signature bit makes commits to the whole transaction as consensus requires',
     'Each signature in a created or signed transaction verifies under the key of the spent output against the consensus signature hash (legacy or BIP143, all outputs and inputs committed) of its own input. '
     'For segwit inputs the amount signed is the amount of the spent output.',
     ['inputs', 'configurations'], 'every amount, outpoint, sequence number and output script, for P2PKH, nested P2WPKH, P2SH and nested P2WSH multisig inputs in all mixes of up to 4 inputs',
     'A wrong preimage shows only for particular mixes of input types and positions; tests pin a few fixed transactions.',
     [T, W], [('calculate_preimages', T), ('sign_tx', T), ('create_new_transaction', T)],
     'Assumes ideal ECDSA: a signature verifies exactly for the digest and key it was made with.')
prop('C12', 'Signing touches only own inputs; co-signers reach the same result in any order',
     'Signing a transaction fills in the inputs the wallet owns and leaves every other input, witness, output, sequence number, version and lock time as it was. '
     'Co-signers of a multisig input may sign in any order, also repeatedly, and end with the same complete transaction, holding the required signatures in key order.',
     ['inputs', 'histories', 'configurations'], 'every transaction content, every signing order of up to n co-signers, m-of-n up to 3 (thorough more), foreign inputs at every position',
     'Tests sign in one or two orders.',
     [T, W, 'bit/utils.py'], [('sign_tx', T), ('get_signatures_from_script', 'bit/utils.py'), ('MultiSig.sign', W)])
prop('C13', 'No satoshi is created or lost, and the fee is the one asked for',
     'In every transaction built, inputs equal requested outputs plus change plus fee, requested outputs (given in satoshi, any bitcoin unit or a currency) are paid exactly, rounded down to whole satoshi, and first, change is positive and goes to the chosen address. '
     'With an absolute fee exactly that fee is paid; with a fee rate the fee is the rate times the estimated size, or, without a change output, at least that and at most what dropping the change output explains.',
     ['inputs', 'configurations'], 'every amount up to 21e14 satoshi, fee rate 1..10000 or absolute fee, up to 3 UTXOs of every type, up to 3 outputs, messages, consolidation on or off, every random draw',
     'Rounding and off-by-one errors appear only for particular amounts; tests use a few.',
     [T], [('sanitize_tx_data', T), ('select_coins', T), ('estimate_tx_fee', T)])
prop('C14', 'Coin selection uses each given coin at most once and refuses only if it must',
     'The selected coins are a non-empty, duplicate-free subset of the given ones, all of them in order when consolidating, and always cover outputs, fee and minimum change. '
     'InsufficientFunds is raised only if all given coins together cannot do that, and no other error occurs; if a selection that needs no change exists (all coins being worth more than their cost), one is used.',
     ['inputs', 'schedules'], 'every amount, fee rate, minimum change and every outcome of the random draws for up to 3 (thorough 4) coins',
     'Selection is randomised; tests fix a few amounts.',
     [T], [('select_coins', T), ('branch and bound search', T), ('single random draw', T)])
prop('C15', 'A wallet never pays an address of the other network',
     'Creating or preparing a transaction that pays, as output or as change, an address of the other network raises ValueError instead of giving a transaction; addresses of the own network are accepted.',
     ['inputs', 'configurations'], 'every 20-byte hash under all version bytes, segwit addresses in both cases, up to 3 outputs in any mix, both networks and wallet kinds',
     'Tests try one address per network.',
     [T, W, F], [('sanitize_tx_data network check', T), ('get_version', F)])
prop('C16', 'A message is stored completely, in order, in standard OP_RETURN outputs',
     'A message given as text or bytes appears in the transaction as consecutive OP_RETURN outputs of value zero after all payments, each carrying at most 80 bytes with the minimal push, whose concatenation is the message.',
     ['inputs'], 'every message of the tried lengths 1..250 (all chunk boundaries), every content, text with multi-byte characters',
     'Push opcodes change at 76 bytes and chunks at 80; tests use short messages.',
     [T, 'bit/utils.py'], [('sanitize_tx_data message chunks', T), ('construct_outputs', T), ('chunk_data', 'bit/utils.py')])
prop('C17', 'Offline signing of a prepared transaction equals direct creation',
     'For the same UTXOs, outputs and options, preparing a transaction and signing the prepared text offline gives the transaction that direct creation gives, also for messages, change addresses, absolute fees, replace-by-fee and both networks and wallet kinds.',
     ['inputs', 'configurations'], 'every amount, outpoint, script content and option for up to 2 UTXOs carrying their type',
     'Tests compare one prepared transaction.',
     [W, T, 'bit/network/meta.py'], [('prepare_transaction', W), ('sign_transaction', W), ('Unspent.to_dict / from_dict', 'bit/network/meta.py')])
prop('C18', 'Amounts convert exactly between satoshi, bitcoin units and currencies',
     'Converting an amount given as integer, decimal, text or float in satoshi, uBTC, mBTC, BTC or a currency to satoshi is exact, rounded down to whole satoshi, and converting satoshi to a unit gives its exact decimal text without exponent or superfluous zeros. '
     'No conversion changes the result of any other conversion.',
     ['inputs', 'histories'], 'every amount up to 21e14 satoshi with up to 12 decimals, every fiat rate of bounded digits, sequences of conversions',
     'Binary floating point and context precision errors show only for particular digits.',
     ['bit/network/rates.py', 'bit/utils.py'], [('currency_to_satoshi', 'bit/network/rates.py'), ('satoshi_to_currency', 'bit/network/rates.py'), ('Decimal', 'bit/utils.py')])
prop('C19', 'Cached rates and fees are never staler than promised and outages are survived',
     'A cached conversion rate or fee is returned only if it was fetched, for that currency or speed, within the cache time; otherwise it is fetched again. '
     'If the first source is unreachable the next is used, and if all are, rates raise ConnectionError while fees fall back to the last known or the default value.',
     ['histories', 'fault_sequences', 'inputs'], 'every sequence of up to 3 (thorough 4) calls at arbitrary times, with arbitrary cache times, values and outages',
     'Tests sleep for a second and call twice.',
     ['bit/network/rates.py', 'bit/network/fees.py'], [('currency_to_satoshi_cached', 'bit/network/rates.py'), ('get_fee_cached', 'bit/network/fees.py'), ('RatesAPI', 'bit/network/rates.py')])
prop('C20', 'A network query is answered if any service can answer it',
     'A query for balance, transactions, one transaction or unspents returns the answer of the first service that works, whatever subset of the others fails and however (connection error, timeout, error status, also in the middle of an answer), and raises ConnectionError only if every service failed. '
     'Broadcasting succeeds exactly if some service accepted the unchanged transaction, and sending returns the id of the transaction broadcast.',
     ['fault_sequences', 'configurations'], 'every subset of failing services, every kind of failure, both networks, all operations',
     'Tests reach the live services or mock one failure.',
     [S, W], [('NetworkAPI failover loops', S), ('IGNORED_ERRORS', S), ('PrivateKey.send', W)])
prop('C21', 'Each web service client gives the complete answer or an error',
     'From what a web service answers, its client returns every unspent (amount, confirmations, script, outpoint) and transaction exactly once, across all pages, and the exact balance. '
     'An error status or connection failure on any page, or an answer the service had to truncate, raises an error the failover handles; never a partial or wrong result. Every request carries the configured timeout.',
     ['inputs', 'fault_sequences', 'configurations'], 'every service, network and operation; every amount, confirmation count and index; item counts around every page size; every status on every page',
     'Tests query live services, which are absent here; page boundaries and mid-page failures are not reached.',
     [S], [('BlockchairAPI, BlockstreamAPI, BitcoreAPI, SmartbitAPI, BlockchainAPI', S), ('status checks per page', S)],
     'Blockstream testnet lists confirmed transactions only; documented statuses for "unknown address" give an empty answer.')
prop('C22', 'A connected node replaces the services of its network exactly',
     'After connecting a node, queries of that network go only to the node and queries of the other network are unaffected; amounts are converted to satoshi exactly and arguments are passed on unchanged. '
     'Node errors, unexpected statuses and connection problems raise an error; a rejected broadcast is never reported as success.',
     ['inputs', 'fault_sequences', 'configurations'], 'every amount with 8 decimals as JSON number, every status and error, both networks',
     'Tests mock one answer per method; floating point amounts are wrong only for particular values.',
     [S, 'bit/network/rates.py'], [('RPCHost', S), ('RPCMethod', S), ('NetworkAPI.connect_to_node', S)])
prop('C23', 'A wallet reports exactly its own coins and can spend what it reports',
     'Fetching reports every unspent and transaction of all addresses of the wallet, with the type that matches the address, and the balance is their sum; a later fetch replaces the earlier one. '
     'A transaction created without giving unspents spends exactly those, fully signed, at no less than the requested fee rate for its real size.',
     ['inputs', 'histories', 'configurations'], 'every amount, confirmation count and index; up to 4 UTXOs over both address kinds; compressed, uncompressed and m-of-n wallets; both networks',
     'Tests use the live network or one mocked UTXO.',
     [W, S, 'bit/network/meta.py'], [('get_unspents / get_balance / get_transactions', W), ('Unspent.set_type', 'bit/network/meta.py')])
prop('C24', 'Unspents survive their dictionary form; replace-by-fee reaches the transaction',
     'An unspent converted to a dictionary (also through JSON) and back is the same in every field, and its segwit flag and size follow its type. '
     'With replace-by-fee every input of the signed transaction signals replaceability and an existing lower sequence is kept; without it every sequence number is the one given, final by default.',
     ['inputs', 'configurations'], 'every field value and type name, every sequence number, direct and offline creation, both networks and wallet kinds',
     'Tests check one sequence number.',
     ['bit/network/meta.py', T, W], [('Unspent', 'bit/network/meta.py'), ('opt_in_for_RBF', 'bit/network/meta.py'), ('create_new_transaction', T)])
prop('C25', 'Every export of a private key restores the same key',
     'A key imported from integer, hex, bytes or WIF exports the same secret in every form, keeps its network and, through WIF, its compression, and has the public key and addresses that belong to the secret. '
     'The public point and the public key convert into each other without loss; keys compare equal exactly if their secrets are equal; a key is shown by its address, never its secret; secrets outside the group are refused.',
     ['inputs', 'configurations'], 'every secret 1..n-1 and every number outside, both networks, both compressions',
     'Tests use one fixed key; padding of small secrets and parity of the point vary with the key.',
     [W, F, 'bit/curve.py'], [('BaseKey / PrivateKey / PrivateKeyTestnet', W), ('public_key_to_coords / coords_to_public_key', F), ('x_to_y', 'bit/curve.py')])
prop('C26', 'DER and PEM exports of a private key restore the same key',
     'Exporting any key, compressed or not, of either network to DER or PEM and importing it again gives a key with the same secret, public key and addresses, on the network of the importing class; '
     'the export is the standard PKCS#8 text of the secret, and DER is not taken for PEM or the reverse.',
     ['inputs', 'configurations'], 'every secret 1..n-1, both networks, every form the key was imported from',
     'Tests use one key and compare one export.',
     [W], [('BaseKey.to_der / to_pem', W), ('from_der / from_pem', W)],
     'The DER and PEM codecs are coincurve code, modelled as the PKCS#8 template and an invertible wrapping.')
prop('C27', 'Generated keys belong to their addresses and carry the wanted prefix',
     'A generated pair of WIF and address belongs together: importing the WIF gives a key with that address. '
     'A vanity search returns such a pair whose address starts with the requested prefix, and a prefix with characters outside the alphabet is refused with ValueError.',
     ['inputs', 'configurations'], 'every generated secret; every prefix of up to 4 characters with a foreign one; any order of candidate keys, any interruption by another worker',
     'The generator has no tests.',
     ['bit/keygen.py'], [('generate_key_address_pair', 'bit/keygen.py'), ('generate_key_address_pairs', 'bit/keygen.py'), ('generate_matching_address', 'bit/keygen.py')],
     'Workers run sequentially; concurrency is C29.')
prop('C28', 'Signatures are valid on the real curve',
     'Signatures made by a key verify on secp256k1 and are low-S DER.', ['inputs'], 'every secret and message', 'Sampling only.',
     [W], [('BaseKey.sign', W)],
     na='The arithmetic is native code of libsecp256k1, not part of /repo; 256-bit curve arithmetic is also out of reach of SMT solvers. C11 and C12 assume an ideal signature scheme instead.')
prop('C29', 'A concurrent vanity search ends with a match under every interleaving',
     'With any number of workers and any interleaving the search ends and prints one matching pair.', ['schedules'], 'every interleaving of the worker processes', 'No tests.',
     ['bit/keygen.py'], [('generate_matching_address', 'bit/keygen.py')],
     na='Workers are operating-system processes communicating through multiprocessing primitives and one-second polling of wall-clock time; their scheduling happens in C code and the kernel and cannot be encoded from the source here. C27 decides the sequential part.')
prop('C30', 'Sending broadcasts exactly the created transaction and returns its id',
     'send() with any coins, amounts, fee, leftover address, message and replace-by-fee option broadcasts, unchanged and on its own network only, the transaction that create_transaction makes of the same arguments, '
     'until one service accepts it, and returns the id of that transaction. Coins and fee rate that are not given are those the services report. If no service accepts it, ConnectionError is raised; '
     'if the funds do not suffice, nothing is broadcast; merely creating a transaction sends nothing.',
     ['inputs', 'configurations', 'fault_sequences'], 'any amounts, outpoints, fee and message over eight option combinations, both networks and key forms, any number of refusing or unreachable services',
     'Sending is excluded from the test suite altogether (it would spend coins).',
     [W, S, 'bit/network/fees.py'], [('PrivateKey.send / PrivateKeyTestnet.send', W), ('NetworkAPI.broadcast_tx', S), ('calc_txid', T)])
prop('C31', 'A signature verifies for its key and data and nothing else',
     'What a key (or a multisig wallet) signs verifies as true under that key, in every form of the key and by its public key alone, for the signed data; it verifies as false for any other data and under any other key. '
     'Signing is deterministic and does not depend on network or compression.',
     ['inputs', 'configurations'], 'data of 0..70,000 bytes (any content), any pair of four keys, all six key and wallet kinds',
     'Tests verify one fixed signature.',
     [W, F], [('BaseKey.sign / verify', W), ('MultiSig.sign', W), ('verify_sig', F)],
     'ECDSA is assumed ideal; that libsecp256k1 realises it is C28.')
prop('C32', 'Byte, hex and integer helpers lose nothing',
     'bytes/hex, number/hex and number/bytes conversions have the standard value and are undone by their inverse, in either case, byte order and for an odd number of digits; numbers take the least number of bytes; '
     'reversing the byte order twice is nothing; chunks have the asked size and together are the data; reading from a stream takes exactly the asked bytes or CompactSize-prefixed item and leaves the rest.',
     ['inputs'], 'byte strings of up to 70,000 bytes, numbers of up to 64 bits (thorough 256), chunked data of up to 240 bytes',
     'Tests use one or two values each; every serialisation in the library goes through these helpers.',
     ['bit/utils.py'], [('hex and int conversions', 'bit/utils.py'), ('chunk_data', 'bit/utils.py'), ('read_* functions', 'bit/utils.py')])

ASSUME = {}


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}}) + '\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        cmd = 'python3-vt /verif/check.py %s --tier ' % p['id']
        checks.append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                       'technique': 'symbolic execution of the real Python source, every obligation decided by Z3, counterexamples replayed on the real code',
                       'level': 'model_checking',
                       'level_note': 'Bounded: holds for %s. Trusts the symbolic models of Python builtins (cross-checked by replaying witnesses of every case on the real code) and '
                                     'Z3; hashes are uninterpreted.%s' % (p['text'], ' ' + p['note'] if p['note'] else '')})
    m = {'version': 1, 'setup_cmd': "python3-vt -c 'import z3, jsonschema' && /opt/venv/bin/python -c 'import coincurve, requests'", 'checks': checks,
         'not_applicable': na, 'notes': 'No hooks: the source is instrumented in memory at import time. One command per property; evidence/<id>.json lists bounds, functions encoded, queries and solver time.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for line in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(line), s)


if __name__ == '__main__':
    main()
