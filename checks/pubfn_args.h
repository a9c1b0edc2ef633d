/* the arguments of the calls in pubfn_calls.h alone, to be made beforehand */
    case 0: (void)A(0, (nostr_config*)obj_nostr_configP(f)); break;
    case 1: (void)A(0, (nostr_config*)obj_nostr_configP(f)); break;
    case 2: (void)A(0, (nostr_config*)obj_nostr_configP(f)); break;
    case 3: (void)A(0, (nostr_config*)obj_nostr_configP(f)); break;
    case 4: (void)A(0, (nostr_config*)obj_nostr_configP(f)); break;
    case 5: (void)A(0, &sk[0]); (void)A(1, &pk[1]); break;
    case 6: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 7: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 8: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); (void)T(1, SKH[0]); break;
    case 9: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); (void)A(1, &sk[1]); break;
    case 10: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); (void)A(1, OB(1)); break;
    case 11: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); (void)A(1, OB(1)); break;
    case 12: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 13: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 14: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 15: (void)A(0, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 16: (void)T(0, PKH[1]); (void)A(1, &pk[1]); break;
    case 17: (void)A(0, &pk[0]); (void)A(1, OB(1)); break;
    case 18: (void)T(0, PKH[1]); (void)A(1, &sk[1]); break;
    case 19: (void)A(0, &sk[0]); (void)A(1, OB(1)); break;
    case 20: (void)A(0, &sk[0]); (void)A(1, &pk[1]); (void)A(2, (uint8_t*)BUF(2)); break;
    case 21: (void)A(0, (uint8_t*)BUF(0)); (void)A(1, (nostr_hd_key*)obj_nostr_hd_keyP(f)); break;
    case 22: (void)A(0, (nostr_hd_key*)obj_nostr_hd_keyP(f)); (void)A(1, (nostr_hd_key*)obj_nostr_hd_keyP(f)); break;
    case 23: (void)A(0, (nostr_hd_key*)obj_nostr_hd_keyP(f)); (void)T(1, "m/44'/1237'/0'/0/0"); (void)A(2, (nostr_hd_key*)obj_nostr_hd_keyP(f)); break;
    case 24: (void)A(0, (nostr_hd_key*)obj_nostr_hd_keyP(f)); (void)A(1, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 25: (void)A(0, OB(0)); break;
    case 26: (void)T(0, "leader monkey parrot ring guide accident before fence cannon height naive bean"); break;
    case 27: (void)T(0, "leader monkey parrot ring guide accident before fence cannon height naive bean"); (void)T(1, ""); (void)A(2, (uint8_t*)BUF(2)); break;
    case 28: (void)T(0, "leader monkey parrot ring guide accident before fence cannon height naive bean"); (void)T(1, ""); (void)A(2, (nostr_keypair*)obj_nostr_keypairP(f)); break;
    case 29: (void)A(0, &pk[0]); (void)T(1, "npub"); (void)A(2, OB(2)); break;
    case 30: (void)T(0, B32(f)); (void)A(1, &pk[1]); break;
    case 31: (void)A(0, &sk[0]); (void)A(1, OB(1)); break;
    case 32: (void)T(0, B32(f)); (void)A(1, &sk[1]); break;
    case 33: (void)A(0, (uint8_t*)BUF(0)); (void)A(1, OB(1)); break;
    case 34: (void)T(0, B32(f)); (void)A(1, (uint8_t*)BUF(1)); break;
    case 35: (void)A(0, &pe); break;
    case 36: (void)A(0, event(f)); break;
    case 37: (void)A(0, event(f)); (void)T(1, "hello"); break;
    case 38: (void)A(0, event(f)); (void)A(1, (const char**)STRS(f)); break;
    case 39: (void)A(0, event(f)); break;
    case 40: (void)A(0, event(f)); (void)A(1, &sk[1]); break;
    case 41: (void)A(0, event(f)); break;
    case 42: (void)A(0, event(f)); (void)A(1, &po[1]); break;
    case 43: (void)T(0, JS(f)); (void)A(1, &pe); break;
    case 44: (void)A(0, (nostr_relay**)obj_nostr_relayPP(f)); (void)T(1, "wss://r.example"); break;
    case 45: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); break;
    case 46: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); (void)A(1, (nostr_relay_callback)CB(f)); (void)A(2, BUF(2)); break;
    case 47: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); break;
    case 48: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); (void)A(1, event(f)); break;
    case 49: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); (void)T(1, "sub"); (void)T(2, "{}"); (void)A(3, (nostr_event_callback)CB(f)); (void)A(4, BUF(4)); break;
    case 50: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); (void)A(1, event(f)); break;
    case 51: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); (void)T(1, "sub"); break;
    case 52: (void)A(0, (nostr_relay*)obj_nostr_relayP(f)); (void)A(1, (nostr_message_callback)CB(f)); (void)A(2, BUF(2)); break;
    case 53: (void)T(0, PKH[1]); (void)A(1, (uint8_t*)BUF(1)); break;
    case 54: (void)A(0, (uint8_t*)BUF(0)); (void)A(1, BUF(1)); break;
    case 55: (void)A(0, &pe); (void)A(1, &pk[1]); (void)T(2, "lnurl1x"); (void)T(3, "hello"); (void)A(4, (const char**)STRS(f)); break;
    case 56: (void)T(0, "lnurl1x"); (void)A(1, BUF(1)); (void)A(2, (bool*)NUMS(2)); break;
    case 57: (void)A(0, event(f)); (void)A(1, (uint64_t*)NUMS(1)); (void)A(2, &po[2]); (void)A(3, BUF(3)); (void)A(4, &pe); break;
    case 58: (void)A(0, event(f)); (void)A(1, event(f)); (void)T(2, PKH[1]); break;
    case 59: (void)A(0, &sk[0]); (void)A(1, &pk[1]); (void)T(2, "text"); (void)A(3, &po[3]); break;
    case 60: (void)A(0, &sk[0]); (void)A(1, &pk[1]); (void)T(2, "text"); (void)A(3, &po[3]); break;
    case 61: (void)A(0, &sk[0]); (void)A(1, &pk[1]); (void)T(2, CT(f)); (void)A(3, &po[3]); (void)A(4, (size_t*)NUMS(4)); break;
    case 62: (void)A(0, &sk[0]); (void)A(1, &pk[1]); (void)T(2, CT(f)); (void)A(3, &po[3]); break;
    case 63: (void)A(0, &pe); (void)A(1, &pk[1]); (void)T(2, "hello"); break;
    case 64: (void)A(0, &pe); (void)A(1, event(f)); (void)A(2, &sk[2]); (void)A(3, &pk[3]); break;
    case 65: (void)A(0, &pe); (void)A(1, event(f)); (void)A(2, &pk[2]); break;
    case 66: (void)A(0, &pe); (void)T(1, "hello"); (void)A(2, &sk[2]); (void)A(3, &pk[3]); (void)T(4, "s"); (void)A(5, (uint8_t*)BUF(5)); break;
    case 67: (void)A(0, event(f)); (void)A(1, &sk[1]); (void)A(2, &pe); (void)A(3, &pk[3]); break;
    case 68: (void)A(0, &pe); (void)A(1, event(f)); (void)A(2, &sk[2]); (void)A(3, &pk[3]); break;
    case 69: (void)A(0, event(f)); (void)A(1, &sk[1]); (void)A(2, &pe); (void)A(3, &pk[3]); break;
    case 70: (void)A(0, &pe); (void)A(1, &pk[1]); (void)T(2, "hello"); break;
    case 71: (void)A(0, &pe); (void)A(1, event(f)); (void)A(2, &sk[2]); (void)A(3, &pk[3]); break;
    case 72: (void)A(0, &pe); (void)A(1, event(f)); (void)A(2, &pk[2]); (void)A(3, (const char**)STRS(f)); break;
    case 73: (void)A(0, event(f)); (void)A(1, &sk[1]); (void)A(2, (nostr_nip46_request_t*)obj_nostr_nip46_request_tP(f)); break;
    case 74: (void)A(0, (nostr_nip46_response_t*)obj_nostr_nip46_response_tP(f)); (void)A(1, &sk[1]); (void)A(2, &pk[2]); (void)A(3, &pe); break;
    case 75: (void)A(0, (nostr_nip46_request_t*)obj_nostr_nip46_request_tP(f)); break;
    case 76: (void)A(0, (nostr_nip46_response_t*)obj_nostr_nip46_response_tP(f)); break;
    case 77: (void)T(0, URI(f)); (void)A(1, (struct nwc_connection**)obj_struct_nwc_connectionPP(f)); break;
    case 78: (void)A(0, (struct nwc_connection*)obj_struct_nwc_connectionP(f)); break;
    case 79: (void)A(0, event(f)); (void)A(1, &pl[1]); (void)A(2, (size_t*)NUMS(2)); (void)A(3, &pl[3]); (void)A(4, (size_t*)NUMS(4)); (void)A(5, &pl[5]); (void)A(6, (size_t*)NUMS(6)); break;
    case 80: (void)A(0, &pe); (void)A(1, (struct nwc_connection*)obj_struct_nwc_connectionP(f)); (void)T(2, "pay"); (void)T(3, "{}"); break;
    case 81: (void)A(0, event(f)); (void)A(1, &sk[1]); (void)A(2, &po[2]); (void)A(3, &po[3]); (void)A(4, &po[4]); (void)A(5, &po[5]); break;
    case 82: (void)A(0, event(f)); (void)A(1, &sk[1]); (void)A(2, &po[2]); (void)A(3, &po[3]); break;
    case 83: (void)A(0, &po[0]); (void)T(1, "lnbc1"); (void)A(2, (uint64_t*)NUMS(2)); break;
    case 84: (void)A(0, &po[0]); break;
    case 85: (void)A(0, &po[0]); (void)T(1, "d"); (void)T(2, "h"); (void)A(3, (uint32_t*)NUMS(3)); break;
    case 86: (void)A(0, &po[0]); (void)A(1, (time_t*)NUMS(1)); (void)A(2, (time_t*)NUMS(2)); (void)A(3, (uint32_t*)NUMS(3)); (void)A(4, (uint32_t*)NUMS(4)); (void)A(5, (int*)NUMS(5)); (void)T(6, "t"); break;
    case 87: (void)A(0, &po[0]); (void)T(1, "h"); (void)T(2, "lnbc1"); break;
    case 88: (void)A(0, &po[0]); (void)T(1, PKH[1]); (void)T(2, "p"); (void)A(3, (const char**)STRS(f)); break;
    case 89: (void)A(0, &po[0]); (void)A(1, (const char**)STRS(f)); (void)A(2, (const char**)STRS(f)); (void)A(3, (uint64_t*)NUMS(3)); break;
    case 90: (void)A(0, &po[0]); break;
    case 91: (void)T(0, "{\"balance\":1,\"preimage\":\"p\",\"methods\":[\"m\"]}"); (void)A(1, (uint64_t*)NUMS(1)); break;
    case 92: (void)T(0, "{\"balance\":1,\"preimage\":\"p\",\"methods\":[\"m\"]}"); (void)A(1, &po[1]); (void)A(2, (uint64_t*)NUMS(2)); break;
    case 93: (void)T(0, "{\"balance\":1,\"preimage\":\"p\",\"methods\":[\"m\"]}"); (void)A(1, &po[1]); (void)A(2, &po[2]); (void)A(3, &po[3]); (void)A(4, &po[4]); (void)A(5, (uint32_t*)NUMS(5)); (void)A(6, &pl[6]); (void)A(7, (size_t*)NUMS(7)); break;
    case 94: (void)T(0, WURI); (void)A(1, &po[1]); break;
    case 95: (void)T(0, sess()); (void)T(1, "pay"); break;
    case 96: (void)T(0, sess()); (void)T(1, "pay"); break;
    case 97: (void)T(0, sess()); (void)A(1, (struct nwc_connection**)obj_struct_nwc_connectionPP(f)); break;
    case 98: (void)T(0, sess()); break;
    case 99: (void)T(0, sess()); break;
    case 100: (void)A(0, (uint8_t*)BUF(0)); break;
    case 101: (void)A(0, event(f)); break;
    case 102: (void)A(0, event(f)); break;
    case 103: (void)A(0, event(f)); break;
    case 104: (void)A(0, event(f)); break;
    case 105: (void)A(0, event(f)); (void)A(1, OB(1)); (void)A(2, OB(2)); break;
    case 106: (void)A(0, event(f)); (void)A(1, OB(1)); (void)A(2, OB(2)); break;
    case 107: (void)A(0, event(f)); (void)T(1, PKH[2]); (void)T(2, "wss://r"); (void)T(3, PKH[1]); (void)T(4, PKH[3]); (void)T(5, "wss://r"); (void)T(6, PKH[2]); break;
    case 108: (void)A(0, event(f)); (void)T(1, PKH[1]); (void)T(2, "wss://r"); break;
    case 109: (void)A(0, event(f)); (void)A(1, (int*)NUMS(1)); break;
    case 110: (void)A(0, &pe); (void)T(1, "+"); (void)T(2, PKH[2]); (void)T(3, PKH[1]); (void)T(4, "wss://r"); break;
    case 111: (void)A(0, event(f)); (void)A(1, OB(1)); (void)A(2, OB(2)); (void)A(3, OB(3)); (void)A(4, (uint16_t*)NUMS(4)); break;
    case 112: (void)A(0, event(f)); (void)A(1, (int*)NUMS(1)); break;
    case 113: (void)A(0, event(f)); (void)A(1, (int*)NUMS(1)); break;
    case 114: (void)A(0, &pe); (void)T(1, PKH[2]); (void)T(2, PKH[1]); (void)T(3, "wss://r"); (void)T(4, "d"); (void)T(5, JEV); break;
    case 115: (void)A(0, event(f)); (void)A(1, OB(1)); (void)A(2, OB(2)); (void)A(3, OB(3)); (void)A(4, (uint16_t*)NUMS(4)); break;
    case 116: (void)A(0, event(f)); break;
    case 117: (void)T(0, URI(f)); (void)A(1, (nostr_uri*)obj_nostr_uriP(f)); break;
    case 118: (void)A(0, (nostr_uri*)obj_nostr_uriP(f)); (void)A(1, OB(1)); break;
    case 119: (void)A(0, (nostr_uri*)obj_nostr_uriP(f)); break;
    case 120: (void)A(0, (nostr_nprofile*)obj_nostr_nprofileP(f)); (void)A(1, OB(1)); break;
    case 121: (void)T(0, B32(f)); (void)A(1, (nostr_nprofile*)obj_nostr_nprofileP(f)); break;
    case 122: (void)A(0, (nostr_nprofile*)obj_nostr_nprofileP(f)); break;
    case 123: (void)A(0, (nostr_nevent*)obj_nostr_neventP(f)); (void)A(1, OB(1)); break;
    case 124: (void)T(0, B32(f)); (void)A(1, (nostr_nevent*)obj_nostr_neventP(f)); break;
    case 125: (void)A(0, (nostr_nevent*)obj_nostr_neventP(f)); break;
    case 126: (void)A(0, (nostr_naddr*)obj_nostr_naddrP(f)); (void)A(1, OB(1)); break;
    case 127: (void)T(0, B32(f)); (void)A(1, (nostr_naddr*)obj_nostr_naddrP(f)); break;
    case 128: (void)A(0, (nostr_naddr*)obj_nostr_naddrP(f)); break;
    case 129: (void)A(0, (nostr_nrelay*)obj_nostr_nrelayP(f)); (void)A(1, OB(1)); break;
    case 130: (void)T(0, B32(f)); (void)A(1, (nostr_nrelay*)obj_nostr_nrelayP(f)); break;
    case 131: (void)A(0, &sk[0]); (void)T(1, "pw"); (void)A(2, OB(2)); break;
    case 132: (void)T(0, ENC); (void)T(1, "pw"); (void)A(2, &sk[2]); break;
    case 133: (void)T(0, ENC); break;
    case 134: (void)A(0, (nostr_relay_list**)obj_nostr_relay_listPP(f)); break;
    case 135: (void)A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)); break;
    case 136: (void)A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)); (void)T(1, "wss://r.example"); break;
    case 137: (void)A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)); (void)A(1, &pe); break;
    case 138: (void)A(0, event(f)); (void)A(1, (nostr_relay_list**)obj_nostr_relay_listPP(f)); break;
    case 139: (void)A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)); break;
    case 140: (void)A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)); break;
    case 141: (void)A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)); (void)A(1, &pl[1]); (void)A(2, (size_t*)NUMS(2)); break;
    case 142: (void)A(0, (nostr_relay_list*)obj_nostr_relay_listP(f)); (void)A(1, &pl[1]); (void)A(2, (size_t*)NUMS(2)); break;
    case 143: (void)A(0, heapstrs()); break;
    case 144: (void)T(0, "a@b.example"); (void)A(1, OB(1)); (void)A(2, OB(2)); break;
    case 145: (void)T(0, "a"); (void)T(1, "b.example"); (void)A(2, OB(2)); break;
    case 146: (void)T(0, JS(f)); (void)T(1, "a"); (void)A(2, OB(2)); (void)A(3, &pl[3]); (void)A(4, (size_t*)NUMS(4)); break;
    case 147: (void)A(0, heapstrs()); break;
    case 148: (void)T(0, "a@b.example"); (void)T(1, PKH[1]); (void)A(2, (nostr_nip05_http_callback)CB(f)); (void)A(3, BUF(3)); (void)A(4, &pl[4]); (void)A(5, (size_t*)NUMS(5)); break;
    case 149: (void)A(0, &sk[0]); (void)A(1, &pk[1]); (void)T(2, "kind=1"); (void)A(3, (nostr_delegation*)obj_nostr_delegationP(f)); break;
    case 150: (void)A(0, (nostr_delegation*)obj_nostr_delegationP(f)); (void)A(1, &pk[1]); break;
    case 151: (void)A(0, (nostr_delegation*)obj_nostr_delegationP(f)); break;
    case 152: (void)A(0, event(f)); (void)A(1, (nostr_delegation*)obj_nostr_delegationP(f)); break;
    case 153: (void)A(0, event(f)); (void)A(1, (nostr_delegation*)obj_nostr_delegationP(f)); break;
    case 154: (void)A(0, event(f)); break;
    case 155: (void)A(0, (nostr_delegation*)obj_nostr_delegationP(f)); break;
    case 156: (void)A(0, (nostr_list**)obj_nostr_listPP(f)); break;
    case 157: (void)A(0, (nostr_list*)obj_nostr_listP(f)); break;
    case 158: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "d"); break;
    case 159: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "t"); break;
    case 160: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "d"); break;
    case 161: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "i"); break;
    case 162: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, PKH[1]); (void)T(2, "wss://r"); (void)T(3, "n"); break;
    case 163: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, PKH[2]); (void)T(2, "wss://r"); break;
    case 164: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "h"); break;
    case 165: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "w"); break;
    case 166: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "wss://r"); break;
    case 167: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, REFA); (void)T(2, "wss://r"); break;
    case 168: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "g"); (void)T(2, "wss://r"); (void)T(3, "n"); break;
    case 169: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)T(1, "s"); (void)T(2, "u"); break;
    case 170: (void)A(0, (nostr_list*)obj_nostr_listP(f)); (void)A(1, (nostr_keypair*)obj_nostr_keypairP(f)); (void)A(2, &pe); break;
    case 171: (void)A(0, event(f)); (void)A(1, (nostr_keypair*)obj_nostr_keypairP(f)); (void)A(2, (nostr_list**)obj_nostr_listPP(f)); break;
    case 172: (void)A(0, (nostr_list*)obj_nostr_listP(f)); break;
    case 173: (void)A(0, (nostr_list*)obj_nostr_listP(f)); break;
    case 174: (void)A(0, (nostr_list*)obj_nostr_listP(f)); break;
    case 175: (void)T(0, JS(f)); (void)A(1, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 176: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, event(f)); break;
    case 177: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, event(f)); (void)A(2, (nostr_search_callback_t)CB(f)); (void)A(3, BUF(3)); break;
    case 178: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, event(f)); break;
    case 179: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, event(f)); (void)A(2, (nostr_search_callback_t)CB(f)); (void)A(3, BUF(3)); break;
    case 180: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (nostr_validation_result_t*)obj_nostr_validation_result_tP(f)); break;
    case 181: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 182: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 183: (void)T(0, JS(f)); (void)A(1, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f)); break;
    case 184: (void)A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f)); break;
    case 185: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)A(1, OB(1)); (void)A(2, (size_t*)NUMS(2)); break;
    case 186: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)T(1, "s"); (void)A(2, event(f)); break;
    case 187: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)T(1, PKH[2]); (void)T(2, "m"); break;
    case 188: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)T(1, "s"); break;
    case 189: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)T(1, "s"); (void)T(2, "m"); break;
    case 190: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)T(1, "m"); break;
    case 191: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)T(1, "c"); break;
    case 192: (void)A(0, (nostr_relay_msg_t*)obj_nostr_relay_msg_tP(f)); (void)T(1, "q"); break;
    case 193: (void)T(0, JS(f)); (void)A(1, &pe); break;
    case 194: (void)A(0, event(f)); (void)A(1, OB(1)); (void)A(2, (size_t*)NUMS(2)); break;
    case 195: (void)A(0, event(f)); (void)A(1, OB(1)); (void)A(2, (size_t*)NUMS(2)); break;
    case 196: (void)A(0, event(f)); (void)A(1, (nostr_validation_result_t*)obj_nostr_validation_result_tP(f)); break;
    case 197: (void)A(0, event(f)); (void)A(1, event(f)); break;
    case 198: (void)A(0, event(f)); (void)A(1, event(f)); break;
    case 199: (void)A(0, event(f)); (void)T(1, "e"); break;
    case 200: (void)A(0, event(f)); break;
    case 201: (void)A(0, event(f)); (void)T(1, "e"); (void)A(2, (const char**)STRS(f)); break;
    case 202: (void)A(0, event(f)); (void)T(1, "e"); break;
    case 203: (void)A(0, event(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 204: (void)T(0, PKH[1]); break;
    case 205: (void)T(0, PKH[1]); break;
    case 206: (void)T(0, "s"); break;
    case 207: (void)T(0, REFA); break;
    case 208: (void)A(0, event(f)); break;
    case 209: (void)A(0, event(f)); break;
    case 210: (void)A(0, event(f)); break;
    case 211: (void)A(0, event(f)); (void)A(1, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f)); break;
    case 212: (void)A(0, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f)); (void)A(1, event(f)); break;
    case 213: (void)A(0, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f)); (void)A(1, event(f)); break;
    case 214: (void)A(0, (nostr_deletion_request_t*)obj_nostr_deletion_request_tP(f)); break;
    case 215: (void)A(0, (nostr_validation_result_t*)obj_nostr_validation_result_tP(f)); (void)A(1, OB(1)); break;
    case 216: (void)A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)); break;
    case 217: (void)A(0, (nostr_relay_limitation_t*)obj_nostr_relay_limitation_tP(f)); break;
    case 218: (void)A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)); (void)A(1, OB(1)); (void)A(2, (size_t*)NUMS(2)); break;
    case 219: (void)A(0, (nostr_relay_limitation_t*)obj_nostr_relay_limitation_tP(f)); (void)A(1, OB(1)); (void)A(2, (size_t*)NUMS(2)); break;
    case 220: (void)A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)); (void)A(1, (int32_t*)NUMS(1)); break;
    case 221: (void)A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)); break;
    case 222: (void)A(0, (nostr_relay_info_t*)obj_nostr_relay_info_tP(f)); break;
    case 223: (void)A(0, (nostr_tag_iterator_t*)obj_nostr_tag_iterator_tP(f)); (void)A(1, event(f)); break;
    case 224: (void)A(0, (nostr_tag_iterator_t*)obj_nostr_tag_iterator_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 225: (void)A(0, (nostr_tag_iterator_t*)obj_nostr_tag_iterator_tP(f)); (void)A(1, (nostr_tag_info_t*)obj_nostr_tag_info_tP(f)); break;
    case 226: (void)T(0, "e"); break;
    case 227: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 228: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 229: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 230: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 231: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 232: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 233: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 234: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 235: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 236: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 237: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 238: (void)A(0, (nostr_filter_t*)obj_nostr_filter_tP(f)); break;
    case 239: (void)A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f)); break;
    case 240: (void)A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f)); break;
    case 241: (void)A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f)); break;
    case 242: (void)A(0, (nostr_client_msg_t*)obj_nostr_client_msg_tP(f)); (void)A(1, (size_t*)NUMS(1)); break;
    case 243: (void)A(0, event(f)); break;
    case 244: (void)A(0, event(f)); break;
    case 245: (void)A(0, event(f)); (void)A(1, BUF(1)); break;
    case 246: (void)A(0, event(f)); (void)A(1, BUF(1)); break;
    case 247: (void)A(0, event(f)); break;
    case 248: (void)A(0, event(f)); break;
    case 249: (void)A(0, (nostr_tag*)obj_nostr_tagP(f)); break;
    case 250: (void)A(0, (nostr_tag*)obj_nostr_tagP(f)); break;
    case 251: (void)A(0, (nostr_tag*)obj_nostr_tagP(f)); break;
    case 252: (void)A(0, event(f)); (void)T(1, "e"); break;
    case 253: (void)A(0, event(f)); break;
    case 254: (void)T(0, PKH[1]); (void)A(1, (uint8_t*)BUF(1)); break;
    case 255: (void)A(0, (uint8_t*)BUF(0)); (void)A(1, BUF(1)); break;
    case 256: (void)A(0, heap()); break;
    case 257: (void)A(0, heapstrs()); break;
