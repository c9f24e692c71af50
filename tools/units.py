"""Proof units and the properties they decide."""
GVE = ['common/gve.c', 'common/rwbuffer.c', 'common/buffer_ext.c']
UNITS = {}
PROPS = {}


def unit(name, **k):
    k['h'] = k.get('h', CUR)
    k['src'] = k.get('src', SRC)
    UNITS[name] = k


CUR, SRC = 'gve.c', GVE
unit('gve_put_u64', entry='h_put_u64', enforce='gve_put_u64', unwind=12)
unit('gve_get_u64', entry='h_gve_get_u64', enforce='gve_get_u64', unwind=12)
for t in ('u32', 'u16', 'i64', 'i32'):
    unit(f'gve_get_{t}', entry=f'h_gve_get_{t}', enforce=f'gve_get_{t}', replace=['gve_get_u64'], unwind=12)
unit('gve_get_i16', entry='h_gve_get_i16', enforce='gve_get_i16', replace=['gve_get_i32'], unwind=12)
for t in ('u8', 'u16', 'u32', 'u64', 'i16', 'i32', 'i64'):
    unit(f'gve_roundtrip_{t}', entry=f'h_rt_{t}', unwind=14)

CUR, SRC = 'common.c', ['common/bip32_ext.c', 'common/rwbuffer.c', 'common/buffer_ext.c']
for t in ('add_u64', 'sub_u64', 'add_i64', 'sub_i64'):
    unit(f'checked_{t}', entry=f'h_{t}', functions=[f'checked_{t}'])
unit('bip32_path_validate', entry='h_path_validate', enforce='bip32_path_validate', unwind=12)
unit('bip32_path_compare', entry='h_path_compare', functions=['bip32_path_is_equal', 'bip32_path_same_account'], unwind=42)
unit('buffer_bytes', entry='h_buffer_bytes', functions=['buffer_copy_bytes', 'buffer_read_bytes', 'buffer_data_len', 'buffer_read_ptr'], unwind=66)
unit('rw_write_ints', entry='h_rw_write_ints', functions=['rw_buffer_write_u8', 'rw_buffer_write_u16', 'rw_buffer_write_u32', 'rw_buffer_write_u64'], unwind=12)
unit('rw_write_bytes', entry='h_rw_write_bytes', cases=[dict(CAP=48)], functions=['rw_buffer_write_bytes'], unwind=66)
unit('rw_seek', entry='h_rw_seek', functions=['rw_buffer_seek_write_set', 'rw_buffer_seek_write_cur', 'rw_buffer_seek_write_end', 'rw_buffer_can_write', 'rw_buffer_can_read'])
unit('rw_shift', entry='h_rw_shift', functions=['rw_buffer_shift_data', 'rw_buffer_empty'], unwind=66)

unit('rw_reads', entry='h_rw_reads', cases=[dict(CAP=32)], functions=[f'rw_buffer_{x}' for x in ('read_u8', 'read_u16', 'read_u32', 'read_u64', 'read_bytes', 'copy_bytes', 'read_bip32_path', 'seek_read_set', 'seek_read_cur', 'seek_read_end', 'read_position', 'write_position')], unwind=34)

CUR, SRC = 'ergo.c', ['ergo/address.c', 'ergo/ergo_tree.c', 'common/rwbuffer.c', 'common/buffer_ext.c', 'helpers/blake2b.c']
unit('address_pubkey', entry='h_addr_pub', enforce='ergo_address_from_pubkey', unwind=36)
unit('address_compressed', entry='h_addr_cpub', enforce='ergo_address_from_compressed_pubkey', unwind=36)
unit('address_script', entry='h_addr_script', enforce='ergo_address_from_script_hash', unwind=36)
unit('tree_generate', entry='h_tree_gen', enforce='ergo_tree_generate_p2pk', unwind=36)
unit('tree_lemma', entry='h_tree_lemma', functions=['ergo_tree_generate_p2pk', 'ergo_tree_parse_p2pk'], unwind=36)
unit('tree_parse_p2pk', entry='h_parse_p2pk', enforce='ergo_tree_parse_p2pk', unwind=36)
unit('tree_parse_p2sh', entry='h_parse_p2sh', enforce='ergo_tree_parse_p2sh', unwind=36)
unit('tree_fee', entry='h_fee_tree', enforce='ergo_tree_miners_fee_tree')

CUR, SRC = 'table.c', ['ergo/tx_ser_table.c', 'common/gve.c', 'common/rwbuffer.c', 'common/buffer_ext.c', 'helpers/blake2b.c']
unit('table_find', entry='h_table_find', functions=['token_table_find_token_index'], fs=16)
unit('table_add_token', entry='h_table_add_token', functions=['token_table_add_token'], fs=16)
unit('table_init', entry='h_table_init', functions=['ergo_tx_serializer_table_init'], fs=16)
unit('table_add', entry='h_table_add', functions=['ergo_tx_serializer_table_add', 'ergo_tx_serializer_table_is_finished'], cases=[dict(VP_N=n) for n in range(8)] + [dict(VP_N=n, VP_REM=1) for n in range(8)], unwind=lambda c: c['VP_N'] + 3, mem=34, fs=64)
unit('table_hash', entry='h_table_hash', functions=['ergo_tx_serializer_table_hash'], fs=16)

CUR, SRC = 'box.c', ['ergo/tx_ser_box.c', 'ergo/ergo_tree.c', 'common/gve.c', 'common/rwbuffer.c', 'common/buffer_ext.c', 'helpers/blake2b.c']
unit('box_init', entry='h_box_init', functions=['ergo_tx_serializer_box_init'])
unit('box_add_tree', entry='h_box_add_tree', functions=['ergo_tx_serializer_box_add_tree'])
unit('box_fee_tree', entry='h_box_fee_tree', functions=['ergo_tx_serializer_box_add_miners_fee_tree'])
unit('box_change_tree', entry='h_box_change_tree', functions=['ergo_tx_serializer_box_add_change_tree'])
unit('box_registers', entry='h_box_registers', functions=['ergo_tx_serializer_box_add_registers'])
unit('box_id', entry='h_box_id', functions=['ergo_tx_serializer_box_id_hash'], cases=[dict(VP_IN_PLACE=0), dict(VP_IN_PLACE=1)])
unit('box_id_init', entry='h_box_id_init', functions=['ergo_tx_serializer_box_id_hash_init'])
unit('box_tokens', entry='h_box_tokens', functions=['ergo_tx_serializer_box_add_tokens'], unwind=34, fs=16, timeout=lambda t: 300 if t == 'quick' else 1500,
     cases=[dict(VP_K=k) for k in range(7)] + [dict(VP_K=k, VP_REM=1) for k in range(7)] +
           [dict(VP_K=k, VP_TABLE=1) for k in range(22)] + [dict(VP_K=k, VP_REM=1, VP_TABLE=1) for k in range(22)],
     quick=[dict(VP_K=k) for k in (6, 4, 3, 2, 1, 0)] + [dict(VP_K=k, VP_REM=1) for k in (0, 1)] +
           [dict(VP_K=k, VP_TABLE=1) for k in (5, 4, 3, 2, 1, 0)] + [dict(VP_K=k, VP_REM=1, VP_TABLE=1) for k in (0, 1, 2)],
     quick_bound='chunks of at most 6 whole ids, 5 whole indexes, and a cut-off token behind at most 2; the thorough tier covers every chunk of up to 255 bytes')


CUR, SRC = 'input.c', ['ergo/tx_ser_input.c', 'helpers/input_frame.c', 'common/gve.c', 'common/rwbuffer.c', 'common/buffer_ext.c', 'helpers/blake2b.c']
unit('input_init', entry='h_input_init', functions=['ergo_tx_serializer_input_init'])
unit('input_tokens', entry='h_input_tokens', functions=['ergo_tx_serializer_input_add_tokens'], cases=[dict(VP_K=k) for k in range(7)])
unit('input_tokens_cut', entry='h_input_tokens_cut', functions=['ergo_tx_serializer_input_add_tokens'], cases=[dict(VP_K=k) for k in range(7)])
unit('input_extension', entry='h_input_extension', functions=['ergo_tx_serializer_input_add_context_extension'])
unit('input_frame', entry='h_frame', functions=['input_frame_data_length', 'input_frame_signature_ptr'])


CUR, SRC = 'full.c', ['ergo/tx_ser_full.c', 'common/gve.c', 'common/rwbuffer.c', 'common/buffer_ext.c', 'helpers/blake2b.c']
for n, f in dict(init='init', tokens='add_tokens', input='add_input', input_tokens='add_input_tokens', input_ext='add_input_context_extension',
                 box='add_box', box_tree='add_box_ergo_tree', box_change='add_box_change_tree', box_fee='add_box_miners_fee_tree', box_tokens='add_box_tokens',
                 box_registers='add_box_registers').items():
    unit(f'full_{n}', entry=f'h_full_{n}', functions=[f'ergo_tx_serializer_full_{f}'])
unit('full_data_inputs', entry='h_full_data_inputs', functions=['ergo_tx_serializer_full_add_data_inputs'], cases=[dict(VP_K=k) for k in range(8)])
unit('full_data_inputs_cut', entry='h_full_data_inputs_cut', functions=['ergo_tx_serializer_full_add_data_inputs'], cases=[dict(VP_K=k) for k in range(8)])
unit('full_callbacks', entry='h_full_callbacks', functions=['ergo_tx_serializer_full_set_input_callback', 'ergo_tx_serializer_full_set_box_callbacks'])



CUR, SRC = 'amounts.c', ['commands/signtx/stx_amounts.c']
for n, f in dict(init='init', input='add_input', input_token='add_input_token', output='add_output', output_token='add_output_token').items():
    unit(f'amounts_{n}', entry=f'h_amounts_{n}', functions=[f'stx_amounts_{f}'], fs=32)
unit('amounts_nonzero', entry='h_amounts_nonzero', functions=['stx_amounts_non_zero_tokens_count', 'stx_amounts_non_zero_token_index'], fs=32)

CUR, SRC = 'output.c', ['commands/signtx/stx_output.c', 'ergo/ergo_tree.c', 'ergo/address.c', 'helpers/blake2b.c', 'common/rwbuffer.c', 'common/buffer_ext.c', 'common/bip32_ext.c']
unit('output_init', entry='h_output_init', functions=['stx_output_info_init'])
unit('output_bip32', entry='h_output_bip32', functions=['stx_output_info_set_bip32'], unwind=44)
unit('output_fee', entry='h_output_fee', functions=['stx_output_info_set_fee'])
unit('output_chunk', entry='h_output_chunk', functions=['stx_output_info_add_tree_chunk'])
unit('output_finished', entry='h_output_finished', functions=['stx_output_info_set_box_finished', 'stx_output_info_is_finished'])
unit('output_token', entry='h_output_token', functions=['stx_output_info_add_token'], fs=32)
unit('output_used', entry='h_output_used', functions=['stx_output_info_used_tokens_count', 'stx_output_info_used_token_index'])


CUR, SRC = 'app.c', ['apdu_dispatcher.c', 'context.c', 'common/buffer_ext.c', 'common/rwbuffer.c']
unit('dispatch', entry='h_dispatch', functions=['apdu_dispatcher'], cases=[dict(VP_DISPATCH=1)])
CUR, SRC = 'app.c', ['app_main.c', 'context.c', 'ui/ui_menu.c', 'ui/ui_main.c']
unit('main_loop', entry='h_main', functions=['app_main', 'ui_menu_main'], cases=[dict(VP_MAIN=1)], unwind=8)
CUR, SRC = 'app.c', ['context.c', 'commands/app_version.c', 'commands/app_name.c', 'common/buffer_ext.c', 'common/rwbuffer.c']
unit('version', entry='h_version', functions=['handler_get_version'])
unit('name', entry='h_name', functions=['handler_get_app_name'])
unit('app_init', entry='h_app_init', functions=['app_init'])
unit('switch', entry='h_switch', functions=['app_set_current_command'])
unit('session_id', entry='h_session_id', functions=['session_id_new_random', 'is_known_application'])
unit('sw_full', entry='h_sw_full', functions=['sw_from_tx_full_result'])
unit('sw_box', entry='h_sw_box', functions=['sw_from_tx_box_result'])


CUR, SRC = 'keys.c', ['helpers/crypto.c', 'ergo/schnorr.c', 'helpers/blake2b.c']
unit('private_key', entry='h_private_key', functions=['crypto_derive_private_key', 'crypto_generate_private_key'], unwind=66)
unit('public_key', entry='h_public_key', functions=['crypto_derive_private_key', 'crypto_init_public_key', 'crypto_generate_public_key'], unwind=66)
SI = 'ergo_secp256k1_schnorr_p2pk_sign_init'
LC = dict(function=SI, invariants='i <= 100', decreases='100 - i', assigns='i, buf, G, GM, GK, __CPROVER_object_whole(hash), __CPROVER_object_whole(key)',
          symbols=dict(i=f'{SI}::1::1::i', buf=f'{SI}::1::buf', hash=f'{SI}::hash', key=f'{SI}::key'))
# the body moved to a helper: no local buffer in the loop
LC2 = dict(LC, assigns='i, G, GM, GK, __CPROVER_object_whole(hash), __CPROVER_object_whole(key)', symbols={k: v for k, v in LC['symbols'].items() if k != 'buf'})
unit('sign_init', entry='h_sign_init', functions=[SI], unwind=66, loops=[LC, LC2], bounded=3, mem=66)
unit('sign_finish', entry='h_sign_finish', functions=['ergo_secp256k1_schnorr_p2pk_sign_finish'], unwind=66)


CUR, SRC = 'p2pk.c', ['commands/signtx/operations/stx_op_p2pk.c', 'context.c', 'common/bip32_ext.c', 'common/rwbuffer.c', 'common/buffer_ext.c']
P2 = 'stx_operation_p2pk_'
for n, f in dict(init='init', start='start_tx', tokens='add_tokens', input='add_input', input_tokens='add_input_tokens', input_ext='add_input_context_extension', data_inputs='add_data_inputs',
                 output='add_output', chunk='add_output_tree_chunk', fee='add_output_tree_fee', change='add_output_tree_change', box_tokens='add_output_tokens',
                 box_registers='add_output_registers', should_show='should_show_output_confirm_screen').items():
    unit(f'p2pk_{n}', entry=f'h_p2pk_{n}', functions=[P2 + f], unwind=66, fs=32, **(dict(cases=[dict(VP_ALIAS=0), dict(VP_ALIAS=1)], mem=42) if n == 'init' else {}))
unit('p2pk_show_path', entry='h_p2pk_show_path', functions=['ui_stx_operation_p2pk_show_token_and_path', 'ui_stx_operation_p2pk_approve_action'], unwind=66, fs=32)
unit('p2pk_show_output', entry='h_p2pk_show_output', functions=['ui_stx_operation_p2pk_show_output_confirm_screen'], unwind=66, fs=32)
unit('p2pk_confirm', entry='h_p2pk_confirm', functions=['ui_stx_operation_p2pk_show_confirm_screen', 'ui_stx_operation_p2pk_show_tx_screen', 'ui_stx_operation_p2pk_send_response'], unwind=66, fs=32)


CUR, SRC = 'stxh.c', ['commands/signtx/stx_handler.c', 'context.c', 'helpers/input_frame.c', 'common/bip32_ext.c', 'common/rwbuffer.c', 'common/buffer_ext.c']
SUBS = dict(init=0x01, start=0x10, tokens=0x11, frame=0x12, extension=0x13, data_inputs=0x14, output=0x15, chunk=0x16, fee=0x17, change=0x18, out_tokens=0x19, registers=0x1A, confirm=0x20, unknown=0)
for n, v in SUBS.items():
    unit(f'sign_{n}_cmd', entry='h_sign_handler', functions=['handler_sign_transaction'], cases=[dict(VP_SUB=v)], unwind=12, mem=66, fs=32,
         **(dict(stubs=dict(buffer_read_u8='stub_u8', buffer_read_bip32_path='stub_path', buffer_read_u64='stub_u64', input_frame_data_length='stub_frame')) if v == 0 else {}))


CUR, SRC = 'stxui.c', ['commands/signtx/stx_ui.c', 'commands/signtx/stx_response.c', 'commands/signtx/stx_amounts.c', 'commands/signtx/stx_output.c', 'context.c', 'ui/ui_approve_reject.c', 'ui/ui_application_id.c', 'ui/ui_main.c', 'ui/ui_menu.c']
unit('ui_tx', entry='h_ui_tx', functions=['ui_stx_add_transaction_screens', 'ui_stx_display_tx_state', 'ui_stx_display_screens'], cases=[dict(VP_S=k, VP_YES=0, VP_KNOWN=0) for k in range(4)], unwind=24, mem=74, fs=32)
unit('ui_tx_answer', entry='h_ui_tx_answer', functions=['ui_stx_add_transaction_screens', 'ui_stx_operation_execute_action', 'ui_menu_main'], cases=[dict(VP_YES=k, VP_S=0, VP_KNOWN=0) for k in range(2)], unwind=24, mem=74, fs=32)
unit('ui_output', entry='h_ui_output', functions=['ui_stx_add_output_screens', 'ui_stx_display_output_state'], cases=[dict(VP_S=k, VP_YES=0, VP_KNOWN=0) for k in range(4)], unwind=24, mem=74, fs=32)
unit('ui_output_answer', entry='h_ui_output_answer', functions=['ui_stx_add_output_screens', 'ui_stx_operation_output_confirm_action'], cases=[dict(VP_YES=k, VP_S=0, VP_KNOWN=0) for k in range(2)], unwind=24, mem=74, fs=32)
unit('ui_operation', entry='h_ui_operation', functions=['ui_stx_add_operation_approve_screens', 'ui_stx_operation_approve_reject', 'ui_application_id_screen'], cases=[dict(VP_YES=y, VP_KNOWN=k, VP_S=0) for y in range(3) for k in range(2)], unwind=24, mem=74, fs=32)



CUR, SRC = 'dynflow.c', ['ui/ui_dynamic_flow.c', 'ui/ui_main.c', 'ui/ui_menu.c', 'ui/ui_bip32_path.c', 'context.c']
unit('dynflow', entry='h_dynflow', functions=['ui_add_dynamic_flow_screens', 'ui_dynamic_step_right', 'ui_dynamic_step_left'], unwind=12, fs=32)
unit('bip32_screen', entry='h_bip32_screen', functions=['ui_bip32_path_screen', 'ux_bip32_path_validate_init'], unwind=12, mem=74)




CUR, SRC = 'attest.c', ['commands/attestinput/ainpt_handler.c', 'commands/attestinput/ainpt_response.c', 'commands/attestinput/ainpt_ui.c', 'context.c', 'ui/ui_approve_reject.c', 'ui/ui_application_id.c', 'ui/ui_main.c', 'ui/ui_menu.c', 'common/rwbuffer.c', 'common/buffer_ext.c']
unit('attest_init', entry='h_attest_init', functions=['handler_attest_input', 'ui_display_access_token', 'send_response_attested_input_session_id'], cases=[dict(VP_YES=k) for k in range(2)], unwind=24, mem=74, fs=32)
for n, v in dict(tree=2, tokens=3, registers=4, unknown=0).items():
    unit(f'attest_{n}_cmd', entry='h_attest_step', functions=['handler_attest_input', 'send_response_attested_input_frame_count'], cases=[dict(VP_SUB=v)], unwind=34, mem=66, fs=32)
unit('attest_frame', entry='h_attest_frame', functions=['handler_attest_input', 'send_response_attested_input_frame'], cases=[dict(VP_I=k) for k in range(6)], unwind=34, mem=66, fs=64)
unit('attest_frame_cmd', entry='h_attest_frame_cmd', functions=['handler_attest_input'], stubs=dict(send_response_attested_input_frame='stub_frame'), unwind=34, mem=66, fs=32)
unit('attest_partition', entry='h_attest_partition', functions=[], unwind=12)
unit('attest_token', entry='h_attest_token', functions=['box_token_cb'], cases=[dict(VP_N=k) for k in range(21)], unwind=34, mem=66, fs=64)




CUR, SRC = 'keycmd.c', [f'commands/extpubkey/epk_{x}.c' for x in ('handler', 'response', 'ui')] + [f'commands/deriveaddress/da_{x}.c' for x in ('handler', 'response', 'ui')] + ['context.c', 'ui/ui_approve_reject.c', 'ui/ui_application_id.c', 'ui/ui_main.c', 'ui/ui_menu.c', 'common/bip32_ext.c', 'common/rwbuffer.c', 'common/buffer_ext.c']
unit('extpubkey', entry='h_epk', stubs=dict(explicit_bzero='stub_bzero'), functions=['handler_get_extended_public_key', 'ui_display_account', 'send_response_extended_pubkey'], cases=[dict(VP_YES=k) for k in range(2)], unwind=24, mem=74, fs=16)
unit('deriveaddress', entry='h_da', functions=['handler_derive_address', 'ui_display_address', 'send_response_address'], cases=[dict(VP_YES=k, VP_DISPLAY=d) for k in range(2) for d in range(2)], unwind=24, mem=74, fs=64)


COMMON_ASSUMPTIONS = [
    'the Ledger SDK (crypto, BIP32 derivation, UX, buffer/format helpers) is replaced by the stand-ins in /verif/sdk, whose contracts follow the SDK headers; they are assumed, not proved against the SDK',
    'two\'s complement machine arithmetic: the signed-overflow check is off (int64 negation in safeint.h relies on wrap-around); unsigned arithmetic, shifts and casts are bit-precise',
    'the 64-bit host ABI of the native build is used instead of the 32-bit ARM ABI of the device (size_t is wider)',
    'loops are unwound completely, with unwinding assertions: they are bounded by a width or a constant in the code or by the stated buffer capacity',
]
TRUSTED_BASE = ['cbmc 6.11.0 front end, symbolic execution and goto-instrument --dfcc', 'CaDiCaL', 'contracts and specification functions in /verif/spec, harness preconditions in /verif/harness', 'SDK stand-ins in /verif/sdk']
BIT = 'Every obligation of the units is discharged by CBMC bit-precisely on the goto program compiled from the unmodified sources; '
PROPS['P01'] = dict(units=['gve_put_u64', 'gve_get_u64', 'gve_get_u32', 'gve_get_u16', 'gve_roundtrip_u8', 'gve_roundtrip_u16', 'gve_roundtrip_u32', 'gve_roundtrip_u64'],
                    note=BIT + 'contracts on the 64-bit writer and reader and the narrowing readers for all values, plus round-trip lemmas. Input byte strings are limited to the 255 bytes an APDU can carry.')
PROPS['P02'] = dict(units=['gve_get_i64', 'gve_get_i32', 'gve_get_i16', 'gve_roundtrip_i16', 'gve_roundtrip_i32', 'gve_roundtrip_i64'],
                    note=BIT + 'contracts on the signed readers (the 64-bit reader replaced by its contract) and round-trip lemmas for all values; byte strings up to 255 bytes.')
PROPS['P03'] = dict(units=['checked_add_u64', 'checked_sub_u64', 'checked_add_i64', 'checked_sub_i64'],
                    note=BIT + 'loop-free, all pairs of 64-bit operands, against exact 128-bit arithmetic. Signed overflow is taken to wrap (two\'s complement), as the code relies on.')
PROPS['P04'] = dict(units=['buffer_bytes', 'rw_write_ints', 'rw_write_bytes', 'rw_seek', 'rw_shift', 'rw_reads'],
                    note=BIT + 'every operation from an arbitrary well-formed buffer state, with bounds and pointer checks on. Capacity is limited to 64 bytes for the byte-copying operations (48 for write_bytes, 32 for the inline readers); the position arithmetic of seek/can_read/can_write is proved for every size.')
PROPS['P05'] = dict(units=['bip32_path_validate'], note=BIT + 'contract over all paths of length 0..10 and all purposes.')
PROPS['P06'] = dict(units=['bip32_path_compare'], note=BIT + 'triple over all pairs of paths of length 0..10.')
PROPS['P07'] = dict(units=['address_pubkey', 'address_compressed', 'address_script'],
                    note=BIT + 'contracts with BLAKE2b as an arbitrary function that may fail at every call; what is proved is which bytes are hashed and placed, not the hash.')
PROPS['P08'] = dict(units=['tree_generate', 'tree_lemma', 'tree_parse_p2pk', 'tree_parse_p2sh', 'tree_fee'],
                    note=BIT + 'contracts on generation and the three recognisers for all byte strings, plus the generate/parse lemma.')
PROPS['P09'] = dict(units=['table_init', 'table_find', 'table_add_token', 'table_add', 'table_hash'],
                    note=BIT + 'triples from an arbitrary well-formed table of up to 20 ids (any contents) and, for the serializer, every chunk length of 0..255 bytes, case by number of whole ids.')
PROPS['P10'] = dict(units=['box_init', 'box_add_tree', 'box_fee_tree', 'box_change_tree', 'box_tokens', 'box_registers', 'box_id', 'box_id_init'],
                    note=BIT + 'triples from an arbitrary serializer state, every step, every chunk, hash failing at any call, listener failing at any call. The quick tier limits token chunks (6 ids, 5 indexes, cut-off token behind at most 2); the thorough tier covers every token chunk up to 255 bytes.')
PROPS['P11'] = dict(units=['input_init', 'input_tokens', 'input_tokens_cut', 'input_extension'],
                    note=BIT + 'triples from an arbitrary serializer state, every frame content and chunk of up to 255 bytes, hash and listener failing at any call.')
FULL = [u for u in UNITS if u.startswith('full_')]
BOX = ['box_init', 'box_add_tree', 'box_fee_tree', 'box_change_tree', 'box_tokens', 'box_registers']
PROPS['P12'] = dict(units=FULL + ['table_init', 'table_hash', 'input_init', 'input_tokens', 'input_extension'] + [u for u in BOX if u != 'box_tokens'],
                    note=BIT + 'triples for every step of the transaction serializer from an arbitrary state satisfying its invariant, with the table, input and box serializers replaced by the contracts that their own units prove.')
PROPS['P13'] = dict(units=FULL + ['table_hash', 'input_init', 'input_tokens', 'input_tokens_cut', 'input_extension'] + BOX,
                    note=BIT + 'triples for every step of the three serializers from every state, with every hash and listener call allowed to fail. Token chunks of outputs are limited in the quick tier (6 ids, 5 indexes, cut-off token behind at most 2).')
AMOUNTS = [u for u in UNITS if u.startswith('amounts_')]
OUTPUT = [u for u in UNITS if u.startswith('output_')]
PROPS['P14'] = dict(units=AMOUNTS + ['p2pk_start', 'p2pk_input', 'p2pk_input_tokens', 'p2pk_output', 'p2pk_box_tokens', 'p2pk_fee', 'p2pk_change', 'p2pk_chunk', 'p2pk_box_registers', 'checked_add_u64', 'checked_sub_u64', 'checked_add_i64', 'checked_sub_i64'],
                    note=BIT + 'triples from arbitrary totals and an arbitrary table of up to 20 ids, against exact 128-bit arithmetic.')
PROPS['P15'] = dict(units=OUTPUT + ['p2pk_output', 'p2pk_chunk', 'p2pk_fee', 'p2pk_change', 'p2pk_box_tokens', 'p2pk_box_registers', 'tree_parse_p2pk', 'tree_parse_p2sh'],
                    note=BIT + 'triples from an arbitrary output state satisfying its invariant (proved preserved), every chunk of up to 255 bytes, hashing allowed to fail at any call.')
P2PK = [u for u in UNITS if u.startswith('p2pk_')]
SIGN = [f'sign_{n}_cmd' for n in SUBS]
PROPS['P16'] = dict(units=['p2pk_should_show', 'p2pk_init', 'p2pk_output', 'bip32_path_validate', 'bip32_path_compare', 'ui_output_answer'] + [f'sign_{n}_cmd' for n in ('chunk', 'fee', 'change', 'out_tokens', 'registers')],
                    note=BIT + 'the rule itself for every output record, signing path and previously approved path; that every step that can complete an output asks the rule and waits for the user when it says so; and that only an approved own output is remembered. The serializer and the output record are their contracts, proved by the units of P10, P12 and P15.')
PROPS['P17'] = dict(units=P2PK + SIGN + ['ui_tx_answer', 'ui_operation', 'ui_output_answer'],
                    note=BIT + 'every subcommand of the signing command, every step of the operation and every answer of the user, from an arbitrary application state. Callees are contracts proved by other units (P09-P15, P18), so a signature in a reply is traced through them by composition on paper, not by one machine-checked lemma.')
PROPS['P18'] = dict(units=['sign_init', 'sign_finish'],
                    note=BIT + 'the nonce loop is discharged by a loop contract (invariant, variant, frame), the arithmetic of the curve and of the hash is an arbitrary recorded function that may fail at every call. If the loop changes shape so that the contract does not apply, the unit falls back to at most 3 iterations and the evidence says so.')
PROPS['P19'] = dict(units=['private_key', 'public_key', 'sign_init', 'sign_finish', 'p2pk_init', 'p2pk_confirm'],
                    note=BIT + 'liveness of every secret is tracked byte-wise by ghost state in the SDK stand-ins and must be clear on every exit; range of nonce and secret on every successful path, all random outputs, failure at any call.')
ATTEST = ['attest_init', 'attest_tree_cmd', 'attest_tokens_cmd', 'attest_registers_cmd', 'attest_unknown_cmd', 'attest_frame_cmd']
PROPS['P20'] = dict(units=ATTEST + ['attest_token', 'box_id', 'box_id_init', 'box_init', 'attest_frame'],
                    note=BIT + 'every subcommand from an arbitrary application state, and the token listener for every number of tokens already recorded (case split over 0..20) with arbitrary ids and amounts. The box serializer is its contract, proved by the units of P10.')
PROPS['P21'] = dict(units=['attest_frame', 'attest_frame_cmd', 'attest_partition', 'input_frame', 'attest_tokens_cmd'],
                    note=BIT + 'every frame index (0..4 one by one, all others together) of every box of 0..20 tokens; HMAC-SHA256 is an arbitrary recorded function.')
PROPS['P22'] = dict(units=['input_frame', 'sign_frame_cmd', 'p2pk_input', 'p2pk_input_tokens'],
                    note=BIT + 'every frame of up to 255 bytes in every state of the signing command; HMAC is an arbitrary recorded function, so what is proved is that all 16 bytes are compared with the MAC of exactly the whole content under the current session key.')
PROPS['P23'] = dict(units=['extpubkey', 'bip32_path_validate', 'public_key', 'bip32_screen'],
                    note=BIT + 'the whole command, including its screens and either answer of the user, for every request in every application state with derivation and formatting failing at will.')
PROPS['P24'] = dict(units=['deriveaddress', 'bip32_path_validate', 'public_key', 'address_pubkey', 'bip32_screen'],
                    note=BIT + 'the whole command, including its screens and either answer of the user, for every request in every application state with derivation, hashing and formatting failing at will.')
PROPS['P25'] = dict(units=['dispatch', 'main_loop', 'sign_unknown_cmd', 'sign_init_cmd', 'sign_confirm_cmd', 'attest_unknown_cmd', 'attest_init', 'attest_tree_cmd', 'extpubkey', 'deriveaddress'], note=BIT + 'the dispatcher for every header, length and application state, and one arbitrary round of the main loop from an arbitrary state; the handlers and the APDU parser (SDK) are replaced by recorders.')
PROPS['P26'] = dict(units=['app_init', 'switch', 'session_id'] + SIGN + ATTEST + ['extpubkey', 'deriveaddress'], note=BIT + 'from an arbitrary application state, watched byte by byte.')
PROPS['P27'] = dict(units=['ui_tx', 'ui_tx_answer', 'amounts_nonzero', 'dynflow'],
                    note=BIT + 'every set of totals over up to 20 tokens and every screen; which value is formatted, with which title and direction, for which token; the number text itself (SDK) is abstracted to 1..21 characters. The walk over the screens is proved for up to the screen counts the callers use.')
PROPS['P28'] = dict(units=['ui_output', 'p2pk_show_output', 'output_used', 'address_compressed', 'address_script', 'bip32_screen', 'dynflow'],
                    note=BIT + 'every output record with up to 20 tokens and every screen; base58 and path texts (SDK) are recorded by the bytes they were given.')
PROPS['P29'] = dict(units=['sw_full', 'sw_box'] + P2PK + SIGN + ATTEST + ['extpubkey', 'deriveaddress'], note=BIT + 'every internal result value of the mapping, and every step of every command with every callee failing in any way.')
PROPS['P30'] = dict(units=['version', 'name'], note=BIT + 'from an arbitrary application state, watched byte by byte.')
