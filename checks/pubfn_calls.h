/* one call of each function of pubfn.h: A(i, x) is its i-th argument, T(i, x) a text, OB/SZ an output buffer and its size */
    case 0: R = (int)nostr_init_with_config(A(0, (nostr_config*)obj_nostr_configP(f))); break;
    case 1: R = (int)nostr_config_get_defaults(A(0, (nostr_config*)obj_nostr_configP(f))); break;
    case 2: R = (int)nostr_config_load_env(A(0, (nostr_config*)obj_nostr_configP(f))); break;
    case 3: R = (int)nostr_config_validate(A(0, (nostr_config*)obj_nostr_configP(f))); break;
    case 4: R = (int)nostr_config_update(A(0, (nostr_config*)obj_nostr_configP(f))); break;
    case 5: R = (int)nostr_key_generate(A(0, &sk[0]), A(1, &pk[1])); break;
    case 6: R = (int)nostr_keypair_init(A(0, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 7: R = (int)nostr_keypair_generate(A(0, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 8: R = (int)nostr_keypair_from_private_hex(A(0, (nostr_keypair*)obj_nostr_keypairP(f)), T(1, SKH[0])); break;
    case 9: R = (int)nostr_keypair_from_private_key(A(0, (nostr_keypair*)obj_nostr_keypairP(f)), A(1, &sk[1])); break;
    case 10: R = (int)nostr_keypair_export_private_hex(A(0, (nostr_keypair*)obj_nostr_keypairP(f)), A(1, OB(1)), SZ(1)); break;
    case 11: R = (int)nostr_keypair_export_public_hex(A(0, (nostr_keypair*)obj_nostr_keypairP(f)), A(1, OB(1)), SZ(1)); break;
    case 12: R = (int)nostr_keypair_validate(A(0, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 13: Q = (const void*)nostr_keypair_public_key(A(0, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 14: Q = (const void*)nostr_keypair_private_key(A(0, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 15: nostr_keypair_destroy(A(0, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 16: R = (int)nostr_key_from_hex(T(0, PKH[1]), A(1, &pk[1])); break;
    case 17: R = (int)nostr_key_to_hex(A(0, &pk[0]), A(1, OB(1)), SZ(1)); break;
    case 18: R = (int)nostr_privkey_from_hex(T(0, PKH[1]), A(1, &sk[1])); break;
    case 19: R = (int)nostr_privkey_to_hex(A(0, &sk[0]), A(1, OB(1)), SZ(1)); break;
    case 20: R = (int)nostr_key_ecdh(A(0, &sk[0]), A(1, &pk[1]), A(2, (uint8_t*)BUF(2))); break;
    case 21: R = (int)nostr_hd_key_from_seed(A(0, (uint8_t*)BUF(0)), 32, A(1, (nostr_hd_key*)obj_nostr_hd_keyP(f))); break;
    case 22: R = (int)nostr_hd_key_derive(A(0, (nostr_hd_key*)obj_nostr_hd_keyP(f)), 0, A(1, (nostr_hd_key*)obj_nostr_hd_keyP(f))); break;
    case 23: R = (int)nostr_hd_key_derive_path(A(0, (nostr_hd_key*)obj_nostr_hd_keyP(f)), T(1, "m/44'/1237'/0'/0/0"), A(2, (nostr_hd_key*)obj_nostr_hd_keyP(f))); break;
    case 24: R = (int)nostr_hd_key_to_keypair(A(0, (nostr_hd_key*)obj_nostr_hd_keyP(f)), A(1, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 25: R = (int)nostr_mnemonic_generate(12, A(0, OB(0)), SZ(0)); break;
    case 26: R = (int)nostr_mnemonic_validate(T(0, "leader monkey parrot ring guide accident before fence cannon height naive bean")); break;
    case 27: R = (int)nostr_mnemonic_to_seed(T(0, "leader monkey parrot ring guide accident before fence cannon height naive bean"), T(1, ""), A(2, (uint8_t*)BUF(2))); break;
    case 28: R = (int)nostr_mnemonic_to_keypair(T(0, "leader monkey parrot ring guide accident before fence cannon height naive bean"), T(1, ""), 0, A(2, (nostr_keypair*)obj_nostr_keypairP(f))); break;
    case 29: R = (int)nostr_key_to_bech32(A(0, &pk[0]), T(1, "npub"), A(2, OB(2)), SZ(2)); break;
    case 30: R = (int)nostr_key_from_bech32(T(0, B32(f)), A(1, &pk[1])); break;
    case 31: R = (int)nostr_privkey_to_bech32(A(0, &sk[0]), A(1, OB(1)), SZ(1)); break;
    case 32: R = (int)nostr_privkey_from_bech32(T(0, B32(f)), A(1, &sk[1])); break;
    case 33: R = (int)nostr_event_id_to_bech32(A(0, (uint8_t*)BUF(0)), A(1, OB(1)), SZ(1)); break;
    case 34: R = (int)nostr_event_id_from_bech32(T(0, B32(f)), A(1, (uint8_t*)BUF(1))); break;
    case 35: R = (int)nostr_event_create(A(0, &pe)); break;
    case 36: nostr_event_destroy(A(0, event(f))); break;
    case 37: R = (int)nostr_event_set_content(A(0, event(f)), T(1, "hello")); break;
    case 38: R = (int)nostr_event_add_tag(A(0, event(f)), A(1, (const char**)STRS(f)), 1); break;
    case 39: R = (int)nostr_event_compute_id(A(0, event(f))); break;
    case 40: R = (int)nostr_event_sign(A(0, event(f)), A(1, &sk[1])); break;
    case 41: R = (int)nostr_event_verify(A(0, event(f))); break;
    case 42: R = (int)nostr_event_to_json(A(0, event(f)), A(1, &po[1])); break;
    case 43: R = (int)nostr_event_from_json(T(0, JS(f)), A(1, &pe)); break;
    case 44: R = (int)nostr_relay_create(A(0, (nostr_relay**)obj_nostr_relayPP(f)), T(1, "wss://r.example")); break;
    case 45: nostr_relay_destroy(A(0, (nostr_relay*)obj_nostr_relayP(f))); break;
    case 46: R = (int)nostr_relay_connect(A(0, (nostr_relay*)obj_nostr_relayP(f)), A(1, (nostr_relay_callback)CB(f)), A(2, BUF(2))); break;
    case 47: R = (int)nostr_relay_disconnect(A(0, (nostr_relay*)obj_nostr_relayP(f))); break;
    case 48: R = (int)nostr_relay_send_event(A(0, (nostr_relay*)obj_nostr_relayP(f)), A(1, event(f))); break;
    case 49: R = (int)nostr_subscribe(A(0, (nostr_relay*)obj_nostr_relayP(f)), T(1, "sub"), T(2, "{}"), A(3, (nostr_event_callback)CB(f)), A(4, BUF(4))); break;
    case 50: R = (int)nostr_publish_event(A(0, (nostr_relay*)obj_nostr_relayP(f)), A(1, event(f))); break;
    case 51: R = (int)nostr_relay_unsubscribe(A(0, (nostr_relay*)obj_nostr_relayP(f)), T(1, "sub")); break;
    case 52: R = (int)nostr_relay_set_message_callback(A(0, (nostr_relay*)obj_nostr_relayP(f)), A(1, (nostr_message_callback)CB(f)), A(2, BUF(2))); break;
    case 53: (void)nostr_hex_decode(T(0, PKH[1]), A(1, (uint8_t*)BUF(1)), 32); break;
    case 54: nostr_hex_encode(A(0, (uint8_t*)BUF(0)), 8, A(1, BUF(1))); break;
    case 55: R = (int)nostr_zap_create_request(A(0, &pe), 1000, A(1, &pk[1]), T(2, "lnurl1x"), T(3, "hello"), A(4, (const char**)STRS(f)), 1); break;
    case 56: R = (int)nostr_zap_validate_lnurl(T(0, "lnurl1x"), A(1, BUF(1)), A(2, (bool*)NUMS(2))); break;
    case 57: R = (int)nostr_zap_parse_receipt(A(0, event(f)), A(1, (uint64_t*)NUMS(1)), A(2, &po[2]), A(3, BUF(3)), A(4, &pe)); break;
    case 58: R = (int)nostr_zap_verify(A(0, event(f)), A(1, event(f)), T(2, PKH[1])); break;
    case 59: R = (int)nostr_nip44_encrypt(A(0, &sk[0]), A(1, &pk[1]), T(2, "text"), TL(4), A(3, &po[3])); break;
    case 60: R = (int)nostr_nip04_encrypt(A(0, &sk[0]), A(1, &pk[1]), T(2, "text"), A(3, &po[3])); break;
    case 61: R = (int)nostr_nip44_decrypt(A(0, &sk[0]), A(1, &pk[1]), T(2, CT(f)), A(3, &po[3]), A(4, (size_t*)NUMS(4))); break;
    case 62: R = (int)nostr_nip04_decrypt(A(0, &sk[0]), A(1, &pk[1]), T(2, CT(f)), A(3, &po[3])); break;
    case 63: R = (int)nostr_nip17_create_rumor(A(0, &pe), KD(f), A(1, &pk[1]), T(2, "hello"), NOW); break;
    case 64: R = (int)nostr_nip17_create_seal(A(0, &pe), A(1, event(f)), A(2, &sk[2]), A(3, &pk[3])); break;
    case 65: R = (int)nostr_nip17_create_gift_wrap(A(0, &pe), A(1, event(f)), A(2, &pk[2])); break;
    case 66: R = (int)nostr_nip17_send_dm(A(0, &pe), T(1, "hello"), A(2, &sk[2]), A(3, &pk[3]), T(4, "s"), A(5, (uint8_t*)BUF(5)), NOW); break;
    case 67: R = (int)nostr_nip17_unwrap_dm(A(0, event(f)), A(1, &sk[1]), A(2, &pe), A(3, &pk[3])); break;
    case 68: R = (int)nostr_nip59_wrap_event(A(0, &pe), A(1, event(f)), A(2, &sk[2]), A(3, &pk[3])); break;
    case 69: R = (int)nostr_nip59_unwrap_event(A(0, event(f)), A(1, &sk[1]), A(2, &pe), A(3, &pk[3])); break;
    case 70: R = (int)nostr_nip59_create_rumor(A(0, &pe), KD(f), A(1, &pk[1]), T(2, "hello")); break;
    case 71: R = (int)nostr_nip59_create_seal(A(0, &pe), A(1, event(f)), A(2, &sk[2]), A(3, &pk[3])); break;
    case 72: R = (int)nostr_nip59_create_gift_wrap(A(0, &pe), A(1, event(f)), A(2, &pk[2]), A(3, (const char**)STRS(f)), 2); break;
    case 73: R = (int)nostr_nip46_parse_request(A(0, event(f)), A(1, &sk[1]), A(2, (nostr_nip46_request_t*)obj_nostr_nip46_request_tP(f))); break;
    case 74: R = (int)nostr_nip46_create_response(A(0, (nostr_nip46_response_t*)obj_nostr_nip46_response_tP(f)), A(1, &sk[1]), A(2, &pk[2]), A(3, &pe)); break;
    case 75: nostr_nip46_request_free(A(0, (nostr_nip46_request_t*)obj_nostr_nip46_request_tP(f))); break;
    case 76: nostr_nip46_response_free(A(0, (nostr_nip46_response_t*)obj_nostr_nip46_response_tP(f))); break;
    case 77: R = (int)nostr_nip47_parse_connection_uri(T(0, URI(f)), A(1, (struct nwc_connection**)obj_struct_nwc_connectionPP(f))); break;
    case 78: R = (int)nostr_nip47_free_connection(A(0, (struct nwc_connection*)obj_struct_nwc_connectionP(f))); break;
    case 79: R = (int)nostr_nip47_parse_info_event(A(0, event(f)), A(1, &pl[1]), A(2, (size_t*)NUMS(2)), A(3, &pl[3]), A(4, (size_t*)NUMS(4)), A(5, &pl[5]), A(6, (size_t*)NUMS(6))); break;
    case 80: R = (int)nostr_nip47_create_request_event(A(0, &pe), A(1, (struct nwc_connection*)obj_struct_nwc_connectionP(f)), T(2, "pay"), T(3, "{}"), 1); break;
    case 81: R = (int)nostr_nip47_parse_response_event(A(0, event(f)), A(1, &sk[1]), A(2, &po[2]), A(3, &po[3]), A(4, &po[4]), A(5, &po[5])); break;
    case 82: R = (int)nostr_nip47_parse_notification_event(A(0, event(f)), A(1, &sk[1]), A(2, &po[2]), A(3, &po[3])); break;
    case 83: R = (int)nostr_nip47_create_pay_invoice_params(A(0, &po[0]), T(1, "lnbc1"), A(2, (uint64_t*)NUMS(2))); break;
    case 84: R = (int)nostr_nip47_create_get_balance_params(A(0, &po[0])); break;
    case 85: R = (int)nostr_nip47_create_make_invoice_params(A(0, &po[0]), 1000, T(1, "d"), T(2, "h"), A(3, (uint32_t*)NUMS(3))); break;
    case 86: R = (int)nostr_nip47_create_list_transactions_params(A(0, &po[0]), A(1, (time_t*)NUMS(1)), A(2, (time_t*)NUMS(2)), A(3, (uint32_t*)NUMS(3)), A(4, (uint32_t*)NUMS(4)), A(5, (int*)NUMS(5)), T(6, "t")); break;
    case 87: R = (int)nostr_nip47_create_lookup_invoice_params(A(0, &po[0]), T(1, "h"), T(2, "lnbc1")); break;
    case 88: R = (int)nostr_nip47_create_pay_keysend_params(A(0, &po[0]), 1000, T(1, PKH[1]), T(2, "p"), A(3, (const char**)STRS(f)), 2); break;
    case 89: R = (int)nostr_nip47_create_multi_pay_invoice_params(A(0, &po[0]), A(1, (const char**)STRS(f)), A(2, (const char**)STRS(f)), A(3, (uint64_t*)NUMS(3)), 1); break;
    case 90: R = (int)nostr_nip47_create_get_info_params(A(0, &po[0])); break;
    case 91: R = (int)nostr_nip47_parse_balance_response(T(0, "{\"balance\":1,\"preimage\":\"p\",\"methods\":[\"m\"]}"), A(1, (uint64_t*)NUMS(1))); break;
    case 92: R = (int)nostr_nip47_parse_pay_invoice_response(T(0, "{\"balance\":1,\"preimage\":\"p\",\"methods\":[\"m\"]}"), A(1, &po[1]), A(2, (uint64_t*)NUMS(2))); break;
    case 93: R = (int)nostr_nip47_parse_info_response(T(0, "{\"balance\":1,\"preimage\":\"p\",\"methods\":[\"m\"]}"), A(1, &po[1]), A(2, &po[2]), A(3, &po[3]), A(4, &po[4]), A(5, (uint32_t*)NUMS(5)), A(6, &pl[6]), A(7, (size_t*)NUMS(7))); break;
    case 94: R = (int)nostr_nip47_session_create(T(0, WURI), A(1, &po[1])); break;
    case 95: R = (int)nostr_nip47_session_add_permission(T(0, sess()), T(1, "pay"), 5, 5); break;
    case 96: R = (int)nostr_nip47_session_check_permission(T(0, sess()), T(1, "pay"), 1000); break;
    case 97: R = (int)nostr_nip47_session_get_connection(T(0, sess()), A(1, (struct nwc_connection**)obj_struct_nwc_connectionPP(f))); break;
    case 98: R = (int)nostr_nip47_session_extend(T(0, sess()), 5); break;
    case 99: R = (int)nostr_nip47_session_destroy(T(0, sess())); break;
    case 100: (void)nostr_nip13_calculate_difficulty(A(0, (uint8_t*)BUF(0))); break;
    case 101: R = (int)nostr_nip13_mine_event(A(0, event(f)), 1, 1000); break;
    case 102: R = (int)nostr_nip13_verify_pow(A(0, event(f)), 1); break;
    case 103: R = (int)nostr_nip13_add_nonce_tag(A(0, event(f)), 5, 1); break;
    case 104: R = (int)nostr_nip13_mine_event_threaded(A(0, event(f)), 1, 2, 1000); break;
    case 105: R = (int)nostr_event_get_root_id(A(0, event(f)), A(1, OB(1)), SZ(1), A(2, OB(2)), SZ(2)); break;
    case 106: R = (int)nostr_event_get_reply_id(A(0, event(f)), A(1, OB(1)), SZ(1), A(2, OB(2)), SZ(2)); break;
    case 107: R = (int)nostr_event_add_reply_tags(A(0, event(f)), T(1, PKH[2]), T(2, "wss://r"), T(3, PKH[1]), T(4, PKH[3]), T(5, "wss://r"), T(6, PKH[2])); break;
    case 108: R = (int)nostr_event_add_mention_tag(A(0, event(f)), T(1, PKH[1]), T(2, "wss://r")); break;
    case 109: R = (int)nostr_event_is_reply(A(0, event(f)), A(1, (int*)NUMS(1))); break;
    case 110: R = (int)nostr_reaction_create(A(0, &pe), T(1, "+"), T(2, PKH[2]), T(3, PKH[1]), T(4, "wss://r"), 1); break;
    case 111: R = (int)nostr_reaction_parse(A(0, event(f)), A(1, OB(1)), SZ(1), A(2, OB(2)), SZ(2), A(3, OB(3)), SZ(3), A(4, (uint16_t*)NUMS(4))); break;
    case 112: R = (int)nostr_reaction_is_like(A(0, event(f)), A(1, (int*)NUMS(1))); break;
    case 113: R = (int)nostr_reaction_is_dislike(A(0, event(f)), A(1, (int*)NUMS(1))); break;
    case 114: R = (int)nostr_repost_create(A(0, &pe), T(1, PKH[2]), T(2, PKH[1]), T(3, "wss://r"), 1, T(4, "d"), T(5, JEV)); break;
    case 115: R = (int)nostr_repost_parse(A(0, event(f)), A(1, OB(1)), SZ(1), A(2, OB(2)), SZ(2), A(3, OB(3)), SZ(3), A(4, (uint16_t*)NUMS(4))); break;
    case 116: R = (int)nostr_quote_tags_from_content(A(0, event(f))); break;
    case 117: R = (int)nostr_uri_parse(T(0, URI(f)), A(1, (nostr_uri*)obj_nostr_uriP(f))); break;
    case 118: R = (int)nostr_uri_encode(A(0, (nostr_uri*)obj_nostr_uriP(f)), A(1, OB(1)), SZ(1)); break;
    case 119: nostr_uri_free(A(0, (nostr_uri*)obj_nostr_uriP(f))); break;
    case 120: R = (int)nostr_nprofile_encode(A(0, (nostr_nprofile*)obj_nostr_nprofileP(f)), A(1, OB(1)), SZ(1)); break;
    case 121: R = (int)nostr_nprofile_decode(T(0, B32(f)), A(1, (nostr_nprofile*)obj_nostr_nprofileP(f))); break;
    case 122: nostr_nprofile_free(A(0, (nostr_nprofile*)obj_nostr_nprofileP(f))); break;
    case 123: R = (int)nostr_nevent_encode(A(0, (nostr_nevent*)obj_nostr_neventP(f)), A(1, OB(1)), SZ(1)); break;
    case 124: R = (int)nostr_nevent_decode(T(0, B32(f)), A(1, (nostr_nevent*)obj_nostr_neventP(f))); break;
    case 125: nostr_nevent_free(A(0, (nostr_nevent*)obj_nostr_neventP(f))); break;
    case 126: R = (int)nostr_naddr_encode(A(0, (nostr_naddr*)obj_nostr_naddrP(f)), A(1, OB(1)), SZ(1)); break;
    case 127: R = (int)nostr_naddr_decode(T(0, B32(f)), A(1, (nostr_naddr*)obj_nostr_naddrP(f))); break;
    case 128: nostr_naddr_free(A(0, (nostr_naddr*)obj_nostr_naddrP(f))); break;
    case 129: R = (int)nostr_nrelay_encode(A(0, (nostr_nrelay*)obj_nostr_nrelayP(f)), A(1, OB(1)), SZ(1)); break;
    case 130: R = (int)nostr_nrelay_decode(T(0, B32(f)), A(1, (nostr_nrelay*)obj_nostr_nrelayP(f))); break;
    case 131: R = (int)nostr_ncryptsec_encrypt(A(0, &sk[0]), T(1, "pw"), 16, A(2, OB(2)), SZ(2)); break;
    case 132: R = (int)nostr_ncryptsec_decrypt(T(0, ENC), T(1, "pw"), A(2, &sk[2])); break;
    case 133: R = (int)nostr_ncryptsec_validate(T(0, ENC)); break;
    case 134: R = (int)nostr_relay_list_create(A(0, (nostr_relay_list**)obj_nostr_relay_listPP(f))); break;
    case 135: nostr_relay_list_free(A(0, (nostr_relay_list*)obj_nostr_relay_listP(f))); break;
    case 136: R = (int)nostr_relay_list_add(A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)), T(1, "wss://r.example"), true, true); break;
    case 137: R = (int)nostr_relay_list_to_event(A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)), A(1, &pe)); break;
    case 138: R = (int)nostr_relay_list_from_event(A(0, event(f)), A(1, (nostr_relay_list**)obj_nostr_relay_listPP(f))); break;
    case 139: (void)nostr_relay_list_count(A(0, (nostr_relay_list*)obj_nostr_relay_listP(f))); break;
    case 140: Q = (const void*)nostr_relay_list_get(A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)), 0); break;
    case 141: R = (int)nostr_relay_list_get_read_relays(A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)), A(1, &pl[1]), A(2, (size_t*)NUMS(2))); break;
    case 142: R = (int)nostr_relay_list_get_write_relays(A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)), A(1, &pl[1]), A(2, (size_t*)NUMS(2))); break;
    case 143: nostr_relay_list_free_urls(A(0, heapstrs()), 0); break;
    case 144: R = (int)nostr_nip05_parse(T(0, "a@b.example"), A(1, OB(1)), SZ(1), A(2, OB(2)), SZ(2)); break;
    case 145: R = (int)nostr_nip05_build_url(T(0, "a"), T(1, "b.example"), A(2, OB(2)), SZ(2)); break;
    case 146: R = (int)nostr_nip05_parse_response(T(0, JS(f)), T(1, "a"), A(2, OB(2)), SZ(2), A(3, &pl[3]), A(4, (size_t*)NUMS(4))); break;
    case 147: nostr_nip05_free_relays(A(0, heapstrs()), 1); break;
    case 148: R = (int)nostr_nip05_verify(T(0, "a@b.example"), T(1, PKH[1]), A(2, (nostr_nip05_http_callback)CB(f)), A(3, BUF(3)), A(4, &pl[4]), A(5, (size_t*)NUMS(5))); break;
    case 149: R = (int)nostr_delegation_create(A(0, &sk[0]), A(1, &pk[1]), T(2, "kind=1"), A(3, (nostr_delegation*)obj_nostr_delegationP(f))); break;
    case 150: R = (int)nostr_delegation_verify(A(0, (nostr_delegation*)obj_nostr_delegationP(f)), A(1, &pk[1])); break;
    case 151: R = (int)nostr_delegation_check_conditions(A(0, (nostr_delegation*)obj_nostr_delegationP(f)), 1, NOW); break;
    case 152: R = (int)nostr_event_add_delegation(A(0, event(f)), A(1, (nostr_delegation*)obj_nostr_delegationP(f))); break;
    case 153: R = (int)nostr_event_get_delegation(A(0, event(f)), A(1, (nostr_delegation*)obj_nostr_delegationP(f))); break;
    case 154: R = (int)nostr_event_verify_delegation(A(0, event(f))); break;
    case 155: nostr_delegation_free(A(0, (nostr_delegation*)obj_nostr_delegationP(f))); break;
    case 156: R = (int)nostr_list_create(A(0, (nostr_list**)obj_nostr_listPP(f)), KD(f)); break;
    case 157: nostr_list_free(A(0, (nostr_list*)obj_nostr_listP(f))); break;
    case 158: R = (int)nostr_list_set_d_tag(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "d")); break;
    case 159: R = (int)nostr_list_set_title(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "t")); break;
    case 160: R = (int)nostr_list_set_description(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "d")); break;
    case 161: R = (int)nostr_list_set_image(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "i")); break;
    case 162: R = (int)nostr_list_add_pubkey(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, PKH[1]), T(2, "wss://r"), T(3, "n"), false); break;
    case 163: R = (int)nostr_list_add_event(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, PKH[2]), T(2, "wss://r"), false); break;
    case 164: R = (int)nostr_list_add_hashtag(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "h"), false); break;
    case 165: R = (int)nostr_list_add_word(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "w"), false); break;
    case 166: R = (int)nostr_list_add_relay(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "wss://r"), false); break;
    case 167: R = (int)nostr_list_add_reference(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, REFA), T(2, "wss://r"), false); break;
    case 168: R = (int)nostr_list_add_group(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "g"), T(2, "wss://r"), T(3, "n"), false); break;
    case 169: R = (int)nostr_list_add_emoji(A(0, (nostr_list*)obj_nostr_listP(f)), T(1, "s"), T(2, "u"), false); break;
    case 170: R = (int)nostr_list_to_event(A(0, (nostr_list*)obj_nostr_listP(f)), A(1, (nostr_keypair*)obj_nostr_keypairP(f)), A(2, &pe)); break;
    case 171: R = (int)nostr_list_from_event(A(0, event(f)), A(1, (nostr_keypair*)obj_nostr_keypairP(f)), A(2, (nostr_list**)obj_nostr_listPP(f))); break;
    case 172: (void)nostr_list_count(A(0, (nostr_list*)obj_nostr_listP(f))); break;
    case 173: Q = (const void*)nostr_list_get(A(0, (nostr_list*)obj_nostr_listP(f)), 0); break;
    case 174: R = (int)nostr_list_remove(A(0, (nostr_list*)obj_nostr_listP(f)), 0); break;
    case 175: R = (int)nostr_filter_parse(T(0, JS(f)), JL(f), A(1, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 176: (void)nostr_filter_matches(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, event(f))); break;
    case 177: (void)nostr_filter_matches_with_search(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, event(f)), A(2, (nostr_search_callback_t)CB(f)), A(3, BUF(3))); break;
    case 178: (void)nostr_filters_match(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), 1, A(1, event(f))); break;
    case 179: (void)nostr_filters_match_with_search(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), 1, A(1, event(f)), A(2, (nostr_search_callback_t)CB(f)), A(3, BUF(3))); break;
    case 180: R = (int)nostr_filter_validate(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, (nostr_validation_result_t*)obj_nostr_validation_result_tP(f))); break;
    case 181: nostr_filter_free(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 182: R = (int)nostr_filter_clone(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 183: R = (int)nostr_client_msg_parse(T(0, JS(f)), JL(f), A(1, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f))); break;
    case 184: nostr_client_msg_free(A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f))); break;
    case 185: R = (int)nostr_relay_msg_serialize(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), A(1, OB(1)), SZ(1), A(2, (size_t*)NUMS(2))); break;
    case 186: nostr_relay_msg_event(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), T(1, "s"), A(2, event(f))); break;
    case 187: nostr_relay_msg_ok(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), T(1, PKH[2]), true, T(2, "m")); break;
    case 188: nostr_relay_msg_eose(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), T(1, "s")); break;
    case 189: nostr_relay_msg_closed(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), T(1, "s"), T(2, "m")); break;
    case 190: nostr_relay_msg_notice(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), T(1, "m")); break;
    case 191: nostr_relay_msg_auth(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), T(1, "c")); break;
    case 192: nostr_relay_msg_count(A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)), T(1, "q"), 1, false); break;
    case 193: R = (int)nostr_event_parse(T(0, JS(f)), JL(f), A(1, &pe)); break;
    case 194: R = (int)nostr_event_serialize_canonical(A(0, event(f)), A(1, OB(1)), SZ(1), A(2, (size_t*)NUMS(2))); break;
    case 195: R = (int)nostr_event_serialize(A(0, event(f)), A(1, OB(1)), SZ(1), A(2, (size_t*)NUMS(2))); break;
    case 196: R = (int)nostr_event_validate_full(A(0, event(f)), 900, A(1, (nostr_validation_result_t*)obj_nostr_validation_result_tP(f))); break;
    case 197: (void)nostr_event_compare_replaceable(A(0, event(f)), A(1, event(f))); break;
    case 198: (void)nostr_event_compare_addressable(A(0, event(f)), A(1, event(f))); break;
    case 199: Q = (const void*)nostr_event_get_tag_value(A(0, event(f)), T(1, "e")); break;
    case 200: Q = (const void*)nostr_event_get_d_tag(A(0, event(f))); break;
    case 201: (void)nostr_event_get_tag_values(A(0, event(f)), T(1, "e"), A(2, (const char**)STRS(f)), 2); break;
    case 202: (void)nostr_event_has_tag(A(0, event(f)), T(1, "e")); break;
    case 203: Q = (const void*)nostr_event_get_tag_at(A(0, event(f)), 0, A(1, (size_t*)NUMS(1))); break;
    case 204: (void)nostr_validate_hex64(T(0, PKH[1])); break;
    case 205: (void)nostr_validate_hex_prefix(T(0, PKH[1])); break;
    case 206: (void)nostr_validate_subscription_id(T(0, "s")); break;
    case 207: (void)nostr_validate_address(T(0, REFA)); break;
    case 208: (void)nostr_event_get_expiration(A(0, event(f))); break;
    case 209: (void)nostr_event_is_expired(A(0, event(f)), NOW); break;
    case 210: (void)nostr_event_is_expired_now(A(0, event(f))); break;
    case 211: R = (int)nostr_deletion_parse(A(0, event(f)), A(1, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f))); break;
    case 212: (void)nostr_deletion_authorized(A(0, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f)), A(1, event(f))); break;
    case 213: (void)nostr_deletion_authorized_address(A(0, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f)), A(1, event(f))); break;
    case 214: nostr_deletion_free(A(0, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f))); break;
    case 215: (void)nostr_validation_error_format(A(0, (nostr_validation_result_t*)obj_nostr_validation_result_tP(f)), A(1, OB(1)), SZ(1)); break;
    case 216: nostr_relay_info_init(A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f))); break;
    case 217: nostr_relay_limitation_init(A(0, (nostr_relay_limitation_t*)obj_nostr_relay_limitation_tP(f))); break;
    case 218: R = (int)nostr_relay_info_serialize(A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)), A(1, OB(1)), SZ(1), A(2, (size_t*)NUMS(2))); break;
    case 219: R = (int)nostr_relay_limitation_serialize(A(0, (nostr_relay_limitation_t*)obj_nostr_relay_limitation_tP(f)), A(1, OB(1)), SZ(1), A(2, (size_t*)NUMS(2))); break;
    case 220: R = (int)nostr_relay_info_set_nips(A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)), A(1, (int32_t*)NUMS(1)), 1); break;
    case 221: R = (int)nostr_relay_info_add_nip(A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)), 1); break;
    case 222: nostr_relay_info_free(A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f))); break;
    case 223: nostr_tag_iterator_init(A(0, (nostr_tag_iterator_t*)obj_nostr_tag_iterator_tP(f)), A(1, event(f))); break;
    case 224: Q = (const void*)nostr_tag_iterator_next(A(0, (nostr_tag_iterator_t*)obj_nostr_tag_iterator_tP(f)), A(1, (size_t*)NUMS(1))); break;
    case 225: (void)nostr_tag_iterator_next_info(A(0, (nostr_tag_iterator_t*)obj_nostr_tag_iterator_tP(f)), A(1, (nostr_tag_info_t*)obj_nostr_tag_info_tP(f))); break;
    case 226: (void)nostr_tag_is_indexable(T(0, "e")); break;
    case 227: Q = (const void*)nostr_filter_get_e_tags(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, (size_t*)NUMS(1))); break;
    case 228: Q = (const void*)nostr_filter_get_p_tags(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, (size_t*)NUMS(1))); break;
    case 229: Q = (const void*)nostr_filter_get_tag_values(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), 'e', A(1, (size_t*)NUMS(1))); break;
    case 230: (void)nostr_filter_has_tag_filters(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 231: Q = (const void*)nostr_filter_get_ids(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, (size_t*)NUMS(1))); break;
    case 232: Q = (const void*)nostr_filter_get_authors(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, (size_t*)NUMS(1))); break;
    case 233: Q = (const void*)nostr_filter_get_kinds(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)), A(1, (size_t*)NUMS(1))); break;
    case 234: (void)nostr_filter_get_since(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 235: (void)nostr_filter_get_until(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 236: (void)nostr_filter_get_limit(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 237: Q = (const void*)nostr_filter_get_search(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 238: (void)nostr_filter_has_search(A(0, (nostr_filter_t*)obj_nostr_filter_tP(f))); break;
    case 239: (void)nostr_client_msg_get_type(A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f))); break;
    case 240: Q = (const void*)nostr_client_msg_get_event(A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f))); break;
    case 241: Q = (const void*)nostr_client_msg_get_subscription_id(A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f))); break;
    case 242: Q = (const void*)nostr_client_msg_get_filters(A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f)), A(1, (size_t*)NUMS(1))); break;
    case 243: Q = (const void*)nostr_event_get_id(A(0, event(f))); break;
    case 244: Q = (const void*)nostr_event_get_pubkey(A(0, event(f))); break;
    case 245: nostr_event_get_id_hex(A(0, event(f)), A(1, BUF(1))); break;
    case 246: nostr_event_get_pubkey_hex(A(0, event(f)), A(1, BUF(1))); break;
    case 247: (void)nostr_event_get_tag_count(A(0, event(f))); break;
    case 248: Q = (const void*)nostr_event_get_tag(A(0, event(f)), 0); break;
    case 249: Q = (const void*)nostr_tag_get_name(A(0, (nostr_tag*)obj_nostr_tagP(f))); break;
    case 250: (void)nostr_tag_get_value_count(A(0, (nostr_tag*)obj_nostr_tagP(f))); break;
    case 251: Q = (const void*)nostr_tag_get_value(A(0, (nostr_tag*)obj_nostr_tagP(f)), 0); break;
    case 252: Q = (const void*)nostr_event_find_tag(A(0, event(f)), T(1, "e")); break;
    case 253: (void)nostr_event_is_deletion(A(0, event(f))); break;
    case 254: R = (int)nostr_hex_to_bytes(T(0, PKH[1]), TL(64), A(1, (uint8_t*)BUF(1)), 32); break;
    case 255: nostr_bytes_to_hex(A(0, (uint8_t*)BUF(0)), 32, A(1, BUF(1))); break;
    case 256: nostr_free(A(0, heap())); break;
    case 257: nostr_free_strings(A(0, heapstrs()), 1); break;
