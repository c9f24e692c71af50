#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; checks never run it)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from units import PROPS  # noqa: E402

OUT = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    assert len(title) <= 80, title
    OUT.append(d)


p('P01', 'Unsigned variable-length integers are canonical, exact and bounded',
  'Every unsigned integer is written as its shortest base-128 little-endian encoding or refused without space for it, and reading such an encoding gives the same integer back and consumes exactly its bytes. Reading never accepts an encoding that is cut off, does not end, or whose value does not fit the requested width.',
  ['inputs'], 'all 8/16/32/64-bit values; all byte strings up to a whole APDU at every offset',
  'The tests try a handful of values; the encoding is hashed into what gets signed, so a single wrong value among 2^64 changes the transaction, and the decoder reads bytes an attacker chooses.',
  ['src/common/gve.c', 'src/common/gve.h', 'src/common/rwbuffer.c', 'src/common/buffer_ext.c'],
  [('gve_put_u64', 'src/common/gve.c'), ('gve_get_u64 and the narrowing readers', 'src/common/gve.c')], ['return code', 'bytes written', 'read offset'])
p('P02', 'Signed variable-length integers round-trip for every value',
  'Every signed 16, 32 and 64-bit integer, written in the zigzag variable-length form the Ergo node uses (32-bit values sign-extended to 64 bits or not), reads back as the same integer. A decoded value outside the requested width is refused, never silently truncated.',
  ['inputs'], 'all 16/32/64-bit signed values; all byte strings up to a whole APDU',
  'Tests sample a few values, none with the sign-extended long form; the property is about all 2^64 of them including the extremes.',
  ['src/common/gve.c', 'src/common/zigzag.h'],
  [('gve_get_i64/i32/i16', 'src/common/gve.c'), ('zigzag encode/decode', 'src/common/zigzag.h')])
p('P03', 'Amount arithmetic is exact or reports overflow',
  'Adding or subtracting two amounts, unsigned or signed 64-bit, yields the mathematically exact result or reports failure, and fails only when the exact result does not fit.',
  ['inputs'], 'all pairs of 64-bit values',
  'No test reaches the boundary pairs, and a wrapped sum would display and approve a wrong amount.',
  ['src/common/safeint.h'], [('checked add/sub helpers', 'src/common/safeint.h')])
p('P04', 'Byte buffers never read or write outside their limits',
  'Every read or write on a byte buffer either fits between its current position and its end, moves exactly the bytes asked for and advances by that much, or fails and leaves contents and positions unchanged. Positions always stay ordered: read position at most write position at most capacity.',
  ['inputs', 'histories'], 'all buffer states and all request sizes, including sizes near the maximum of the size type',
  'Tests use fixed small buffers; memory safety on attacker-chosen lengths is a statement about all lengths and offsets.',
  ['src/common/rwbuffer.c', 'src/common/rwbuffer.h', 'src/common/buffer_ext.c', 'src/common/buffer_ext.h'],
  [('rw_buffer_* capacity checks', 'src/common/rwbuffer.c'), ('buffer_* remaining-length checks', 'src/common/buffer_ext.c')])
p('P05', 'Only Ergo derivation paths are accepted, by kind',
  'A derivation path is accepted for a purpose exactly when it starts with hardened 44 and 429, its account is hardened, its length fits the purpose (at least three levels for an account, at least five for an address), its change level is 0 or 1, and address levels stay in the non-hardened range.',
  ['inputs'], 'all paths of every length 0..10 with every 32-bit component, for every purpose',
  'Tests try a few paths; there are 2^320 possible paths and the signing key is chosen by one of them.',
  ['src/common/bip32_ext.c', 'src/common/bip32_ext.h'], [('path validation', 'src/common/bip32_ext.c')])
p('P06', 'Path equality and same-account decisions compare every component',
  'Two derivation paths are equal exactly when they have the same length and the same value at every level; two paths belong to the same account exactly when both reach the account level and agree on purpose, coin and account.',
  ['inputs'], 'all pairs of paths of every length 0..10',
  'Tests compare few paths; the change-output approval depends on these answers for paths chosen by the host.',
  ['src/common/bip32_ext.c'], [('path equality', 'src/common/bip32_ext.c'), ('same-account test', 'src/common/bip32_ext.c')])
p('P07', 'Addresses encode network, type, content and checksum exactly',
  'The address built from a public key or a script hash is: one byte network plus type, the compressed key (or the script hash), and the first four bytes of the BLAKE2b-256 of all that. If hashing fails no address is reported as built.',
  ['inputs', 'fault_sequences'], 'every public key, script hash and network; hashing succeeding or failing',
  'Tests check fixed vectors of single keys; sign bit of y, network byte and checksum must be right for each key, and hash failure never occurs in tests.',
  ['src/ergo/address.c', 'src/ergo/address.h'], [('address composition', 'src/ergo/address.c')])
p('P08', 'Output scripts are generated and recognised byte for byte',
  'The script generated for a key is exactly the standard pay-to-public-key script of that key. A script is reported as pay-to-key, pay-to-script-hash or miners fee only when its whole content has that form for the reported key, hash or network, so two different scripts are never shown as the same recipient.',
  ['inputs'], 'all public keys and all byte strings up to the longest recognised script',
  'Tests use three or four known scripts; that nothing else is recognised is a statement about every byte string.',
  ['src/ergo/ergo_tree.c', 'src/ergo/ergo_tree.h'],
  [('script generation and parsing', 'src/ergo/ergo_tree.c')])
p('P09', 'The token table holds exactly the announced ids, in order',
  'A token table accepts exactly the announced number of ids (at most 20), stores each id unchanged in order, reports completion exactly when all have arrived, and finds an id only where all 32 bytes are equal. The transaction hash receives the announced count followed by the ids.',
  ['inputs', 'histories'], 'all table states, all chunk contents and lengths',
  'Tests fill a table once or twice; positions in the table become token identities in signed outputs.',
  ['src/ergo/tx_ser_table.c', 'src/ergo/tx_ser_table.h'],
  [('table add / find / hash', 'src/ergo/tx_ser_table.c')])
p('P10', 'An output is hashed exactly as it was announced and streamed',
  'The bytes that an output contributes to the transaction hash are exactly: value, script, creation height, token count, tokens and registers in the canonical encoding, with exactly the announced number of script bytes, tokens and register bytes, whatever the chunking. The observer is told of each token exactly as it was hashed, and completion is reported only when everything announced has been hashed.',
  ['inputs', 'histories', 'fault_sequences'], 'all states of the serializer, all chunk contents and sizes, all announced sizes, all hash or callback failures',
  'Tests replay a few recorded boxes; chunk boundaries, sizes and failures are chosen by the host.',
  ['src/ergo/tx_ser_box.c', 'src/ergo/tx_ser_box.h'],
  [('box serializer state machine', 'src/ergo/tx_ser_box.c')])
p('P11', 'An input is hashed once, after all its authenticated frames, in order',
  'Frames of an input are accepted only for the announced box, in order and without repetition, and each token amount they carry is reported exactly once. The transaction hash receives the box id followed by the empty proof and the context extension with exactly the announced bytes, only after the last frame.',
  ['inputs', 'histories', 'fault_sequences'], 'all states, frames, chunk contents and sizes, all hash or callback failures',
  'Tests send well-formed frames; a skipped or repeated frame would change the amounts shown to the user.',
  ['src/ergo/tx_ser_input.c', 'src/ergo/tx_ser_input.h'],
  [('input serializer state machine', 'src/ergo/tx_ser_input.c')])
p('P12', 'A transaction is hashed in protocol order with the announced counts',
  'The hashed transaction is the announced number of inputs, data inputs, tokens and outputs, each preceded by its count, in that order; a section starts only after the previous one is complete, and the transaction is finished only when every announced item has been fully hashed. An unfinished item can never be abandoned or overwritten by the next.',
  ['inputs', 'histories', 'fault_sequences'], 'every call on every reachable state of the transaction serializer with any arguments',
  'Tests follow the one correct order; the host may call the steps in any order with any counts.',
  ['src/ergo/tx_ser_full.c', 'src/ergo/tx_ser_full.h'],
  [('transaction serializer state machine', 'src/ergo/tx_ser_full.c')])
p('P13', 'After a serialization error nothing more is accepted',
  'Once any serialization step of a transaction, input or output has failed, every later step on it fails too and the hash receives nothing more from it. A step reports success only if every hashing and observer call it made succeeded.',
  ['inputs', 'histories', 'fault_sequences'], 'every step on every state, with hash and callback failures at any point',
  'Tests never make the hash or a callback fail.',
  ['src/ergo/tx_ser_box.c', 'src/ergo/tx_ser_input.c', 'src/ergo/tx_ser_full.c'],
  [('sticky error state', 'src/ergo/tx_ser_full.c')])
p('P14', 'The shown totals are the exact balance of inputs and outputs',
  'For each accepted input and approved output the running totals change exactly by its amount: value to others is inputs minus own change minus fee, and each token shows inputs minus outputs. An amount that would overflow, an output token that is not in the table, or an input token the table has no room for makes the step fail and the transaction unsignable.',
  ['inputs', 'histories'], 'all amounts, all token ids and all previous totals',
  'Tests sign small transactions; overflow and accumulation across many boxes are never reached.',
  ['src/commands/signtx/stx_amounts.h', 'src/commands/signtx/stx_amounts.c'],
  [('amount accumulation', 'src/commands/signtx/stx_amounts.h')])
p('P15', 'What is known about an output is what was streamed for it',
  'Each output is shown with the value that was announced for it, a recipient that is the script streamed for it (own path, known address, script hash or miners fee), and exactly the token amounts streamed for it. A recipient is set once per output and an output is complete only when its whole content was streamed.',
  ['inputs', 'histories'], 'all output states, scripts, values and token streams',
  'Tests show a few outputs; the host picks the order and content of the pieces.',
  ['src/commands/signtx/stx_output.c', 'src/commands/signtx/stx_output.h'],
  [('output information record', 'src/commands/signtx/stx_output.c')])
p('P16', 'Only fees and own change are approved without the user',
  'An output is accepted without being shown only when it pays the miners fee with no tokens, or when it pays an own address that equals the last own output the user approved or lies in the signing account, on the same change branch, less than 20 after the signing address. Every other output is shown and waits for the user.',
  ['inputs', 'histories'], 'all output contents, all signing paths and all previously approved outputs',
  'Tests use one or two change paths; the rule decides for all paths what the user is not asked about.',
  ['src/commands/signtx/operations/stx_op_p2pk.c'],
  [('automatic approval rule', 'src/commands/signtx/operations/stx_op_p2pk.c')])
p('P17', 'A signature is released only for the shown, confirmed transaction, once',
  'A signature leaves the device only in reply to the user approving the final transaction screen, over exactly the completed transaction whose totals were on that screen, and the signing state is gone afterwards. Rejection, an error or another command at any step ends the attempt without a signature.',
  ['inputs', 'histories', 'fault_sequences'], 'every command and user action in every state of the signing operation',
  'Tests approve one recorded flow; the guarantee is over every order of commands and user actions.',
  ['src/commands/signtx/operations/stx_op_p2pk.c', 'src/commands/signtx/stx_handler.c', 'src/commands/signtx/stx_ui.c'],
  [('signing state machine', 'src/commands/signtx/operations/stx_op_p2pk.c')])
p('P18', 'The signature is a Schnorr proof bound to key and message',
  'The released 56 bytes are the challenge and the response of a Schnorr proof: the challenge is the first 24 bytes of the hash of the public key, the commitment of the nonce used and the message, and the response is nonce plus challenge times secret modulo the group order. If any step fails no signature is reported.',
  ['inputs', 'fault_sequences'], 'all keys, nonces and messages; failure at any cryptographic call',
  'Tests verify one signature with fixed randomness; failures and special values never occur in them.',
  ['src/ergo/schnorr.c', 'src/ergo/schnorr.h'],
  [('signature composition', 'src/ergo/schnorr.c')])
p('P19', 'Secrets and nonces are in range, fresh and wiped',
  'Every signing attempt draws a new random nonce; a nonce or secret that is zero or not below the group order is never used. Private keys, seeds, chain codes, nonces and intermediate products are overwritten on every way out, also when a cryptographic call fails.',
  ['inputs', 'fault_sequences'], 'all random outputs and all keys; failure at any cryptographic call',
  'Leaked memory and biased nonces have no visible effect in a functional test.',
  ['src/helpers/crypto.c', 'src/ergo/schnorr.c'],
  [('key derivation and wiping', 'src/helpers/crypto.c'), ('nonce generation and wiping', 'src/ergo/schnorr.c')])
p('P20', 'Attested box content is the streamed box, each token once',
  'The box id, value and tokens that are attested are those of the one box that was streamed completely: amounts are stored per token as streamed, a repeated token or more than 20 tokens is refused, and nothing is attested before the box is complete.',
  ['inputs', 'histories'], 'all states of the attestation, all tokens and amounts',
  'Tests attest a few recorded boxes; duplicates and incomplete boxes are not exercised systematically.',
  ['src/commands/attestinput/ainpt_handler.c', 'src/commands/attestinput/ainpt_response.c'],
  [('token callback and frame counting', 'src/commands/attestinput/ainpt_handler.c')])
p('P21', 'Attestation frames are complete, disjoint and authenticated',
  'A complete attested box is split into frames of at most four tokens, numbered from zero with the right total, each carrying box id, value and its own tokens, followed by the first 16 bytes of HMAC-SHA256 of exactly those bytes under the session key. Together the frames carry every token once.',
  ['inputs', 'fault_sequences'], 'all boxes with 0..20 tokens, every frame index',
  'Tests request the frames of a few boxes.',
  ['src/commands/attestinput/ainpt_response.c', 'src/helpers/input_frame.c'],
  [('frame composition and MAC', 'src/commands/attestinput/ainpt_response.c')])
p('P22', 'An input frame is used only if this session attested it',
  'A signing session takes input data only from a frame whose length fits its token count and whose 16 signature bytes equal the MAC of its content under the current session key, compared in full. Any other frame is refused without effect on the totals.',
  ['inputs', 'fault_sequences'], 'all frames up to a whole APDU, all session keys',
  'Tests corrupt a single byte; acceptance of any forged frame of any length is a statement about all of them.',
  ['src/helpers/input_frame.c', 'src/commands/signtx/stx_handler.c'],
  [('frame reading and MAC check', 'src/helpers/input_frame.c')])
p('P23', 'Extended public keys leave only for account paths, with consent',
  'An extended public key is returned only for a path valid for an account and only after the user approved it, unless the requesting session was already approved; the reply is the public key and chain code of exactly that path. Rejection returns no key material.',
  ['inputs', 'histories', 'fault_sequences'], 'all requests in every state, all user answers, failing derivation',
  'Tests ask for a few paths.',
  ['src/commands/extpubkey/epk_handler.c', 'src/commands/extpubkey/epk_response.c', 'src/commands/extpubkey/epk_ui.c'],
  [('request handling and consent', 'src/commands/extpubkey/epk_handler.c')])
p('P24', 'Derived addresses are those of the given path, sent only with consent',
  'The address returned or displayed is the pay-to-key address of the given valid address path on the given network. A display request shows it and never sends it; a send request from a session not yet approved needs the user.',
  ['inputs', 'histories', 'fault_sequences'], 'all requests in every state, all user answers, failing derivation',
  'Tests derive a few addresses.',
  ['src/commands/deriveaddress/da_handler.c', 'src/commands/deriveaddress/da_response.c', 'src/commands/deriveaddress/da_ui.c'],
  [('request handling', 'src/commands/deriveaddress/da_handler.c')])
p('P25', 'Only well-formed commands are dispatched, every other gets an error',
  'A command reaches its handler only with the application class, a known instruction and allowed parameters, with exactly the received data; anything else is answered with one error status and changes nothing. Commands arriving while the user is deciding are refused except version and name queries.',
  ['inputs', 'histories'], 'all class, instruction, parameter and length bytes in every application state',
  'Tests send a few invalid headers out of 2^32.',
  ['src/apdu_dispatcher.c'],
  [('dispatcher', 'src/apdu_dispatcher.c')])
p('P26', 'Commands are exclusive: switching clears all previous state',
  'At most one multi-step command is in progress; a step of another command is refused, starting a new one or ending one erases the whole previous state, and a continuation is accepted only for the command in progress. Every session gets a new random key for authentication.',
  ['inputs', 'histories'], 'every command step in every state',
  'Tests run one command at a time.',
  ['src/context.c', 'src/context.h', 'src/helpers/cmd_macros.h'],
  [('current command switch', 'src/context.c')])
p('P27', 'The final screens show the exact transaction totals and every token',
  'The transaction confirmation shows the value to others, the fee and every token with nonzero balance, each exactly once with its own id, amount and direction (burning when inputs exceed outputs, minting otherwise), and the number of screens matches.',
  ['inputs'], 'all totals and all token tables up to 20 entries, every screen',
  'Tests compare a few screens.',
  ['src/commands/signtx/stx_ui.c', 'src/commands/signtx/stx_amounts.h'],
  [('transaction screens', 'src/commands/signtx/stx_ui.c')])
p('P28', 'The output screens show its recipient, value and every token',
  'An output shown to the user is shown with its recipient and value and with each of its tokens exactly once with its own id and amount; own-path outputs are shown as their path.',
  ['inputs'], 'all outputs with up to 20 tokens, every screen',
  'Tests compare a few screens.',
  ['src/commands/signtx/stx_ui.c', 'src/commands/signtx/stx_output.c'],
  [('output screens', 'src/commands/signtx/stx_ui.c')])
p('P29', 'An internal error is never reported to the host as success',
  'Every internal result that is not success maps to an error status word, and a failed sub-operation makes its command fail.',
  ['inputs', 'fault_sequences'], 'all internal result values',
  'Tests reach few of the error values.',
  ['src/helpers/sw_result.h'], [('result to status mapping', 'src/helpers/sw_result.h')])
p('P30', 'Version and name queries answer exactly and change nothing',
  'The version query returns major, minor, patch and debug flag, the name query the application name, and neither changes the state of a command in progress.',
  ['inputs', 'histories'], 'every application state', 'Tests query an idle application only.',
  ['src/commands/app_version.c', 'src/commands/app_name.c'], [('handlers', 'src/commands')])

if __name__ == '__main__':
    with open(f'{VERIF}/properties.jsonl', 'w') as f:
        for d in OUT:
            f.write(json.dumps(d) + '\n')
    ids = {d['id'] for d in OUT}
    checks, na = [], []
    for d in OUT:
        P = PROPS.get(d['id'])
        if P is None:
            na.append(dict(property=d['id'], reason='no check has been built for this property yet'))
        elif 'na' in P:
            na.append(dict(property=d['id'], reason=P['na']))
        else:
            checks.append(dict(property=d['id'], quick_cmd=f'python3 tools/vp.py check {d["id"]} --tier quick',
                               thorough_cmd=f'python3 tools/vp.py check {d["id"]} --tier thorough',
                               technique='contract-based deductive verification of the C code (CBMC code contracts and Hoare triples, SAT-discharged)',
                               level=P.get('level', 'proof'), level_note=P['note']))
    m = dict(version=1, setup_cmd='python3 tools/vp.py setup', checks=checks, not_applicable=na,
             hooks=dict(guard='VP_CBMC', enable='no hook exists in /repo: contracts are attached from /verif/spec to the unmodified sources by goto-cc -DVP_CBMC', source_commits=[]),
             notes='See DESIGN.md. known_findings.txt lists the repaired defects.')
    json.dump(m, open(f'{VERIF}/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'claimed', len(na), 'not')
