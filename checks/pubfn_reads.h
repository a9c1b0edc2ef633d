/* arguments through which a function only reads: function, argument, kind of object (0 nostr_client_msg_t, 1 nostr_delegation, 2 nostr_deletion_request_t, 3 nostr_event, 4 nostr_filter_t, 5 nostr_hd_key, 6 nostr_key, 7 nostr_keypair, 8 nostr_list, 9 nostr_naddr, 10 nostr_nevent, 11 nostr_nip46_response_t, 12 nostr_nprofile, 13 nostr_nrelay, 14 nostr_privkey, 15 nostr_relay_info_t, 16 nostr_relay_limitation_t, 17 nostr_relay_list, 18 nostr_relay_msg_t, 19 nostr_tag, 20 nostr_uri, 21 nostr_validation_result_t, 22 nwc_connection) */
static const short READS[][3] = { { 9, 1, 14 }, { 10, 0, 7 }, { 11, 0, 7 }, { 12, 0, 7 }, { 13, 0, 7 }, { 14, 0, 7 }, { 17, 0, 6 }, { 19, 0, 14 }, { 20, 0, 14 }, { 20, 1, 6 }, { 22, 0, 5 }, { 23, 0, 5 }, { 24, 0, 5 }, { 29, 0, 6 }, { 31, 0, 14 }, { 40, 1, 14 }, { 41, 0, 3 }, { 42, 0, 3 }, { 48, 1, 3 }, { 50, 1, 3 }, { 55, 1, 6 }, { 57, 0, 3 }, { 58, 0, 3 }, { 58, 1, 3 }, { 59, 0, 14 }, { 59, 1, 6 }, { 60, 0, 14 }, { 60, 1, 6 }, { 61, 0, 14 }, { 61, 1, 6 }, { 62, 0, 14 }, { 62, 1, 6 }, { 63, 1, 6 }, { 64, 1, 3 }, { 64, 2, 14 }, { 64, 3, 6 }, { 65, 1, 3 }, { 65, 2, 6 }, { 66, 2, 14 }, { 66, 3, 6 }, { 67, 0, 3 }, { 67, 1, 14 }, { 68, 1, 3 }, { 68, 2, 14 }, { 68, 3, 6 }, { 69, 0, 3 }, { 69, 1, 14 }, { 70, 1, 6 }, { 71, 1, 3 }, { 71, 2, 14 }, { 71, 3, 6 }, { 72, 1, 3 }, { 72, 2, 6 }, { 73, 0, 3 }, { 73, 1, 14 }, { 74, 0, 11 }, { 74, 1, 14 }, { 74, 2, 6 }, { 79, 0, 3 }, { 80, 1, 22 }, { 81, 0, 3 }, { 81, 1, 14 }, { 82, 0, 3 }, { 82, 1, 14 }, { 102, 0, 3 }, { 105, 0, 3 }, { 106, 0, 3 }, { 109, 0, 3 }, { 111, 0, 3 }, { 112, 0, 3 }, { 113, 0, 3 }, { 115, 0, 3 }, { 118, 0, 20 }, { 120, 0, 12 }, { 123, 0, 10 }, { 126, 0, 9 }, { 129, 0, 13 }, { 131, 0, 14 }, { 137, 0, 17 }, { 138, 0, 3 }, { 139, 0, 17 }, { 140, 0, 17 }, { 141, 0, 17 }, { 142, 0, 17 }, { 149, 0, 14 }, { 149, 1, 6 }, { 150, 0, 1 }, { 150, 1, 6 }, { 151, 0, 1 }, { 152, 1, 1 }, { 153, 0, 3 }, { 154, 0, 3 }, { 170, 0, 8 }, { 170, 1, 7 }, { 171, 0, 3 }, { 171, 1, 7 }, { 172, 0, 8 }, { 173, 0, 8 }, { 176, 0, 4 }, { 176, 1, 3 }, { 177, 0, 4 }, { 177, 1, 3 }, { 178, 0, 4 }, { 178, 1, 3 }, { 179, 0, 4 }, { 179, 1, 3 }, { 180, 0, 4 }, { 182, 1, 4 }, { 185, 0, 18 }, { 186, 2, 3 }, { 194, 0, 3 }, { 195, 0, 3 }, { 196, 0, 3 }, { 197, 0, 3 }, { 197, 1, 3 }, { 198, 0, 3 }, { 198, 1, 3 }, { 199, 0, 3 }, { 200, 0, 3 }, { 201, 0, 3 }, { 202, 0, 3 }, { 203, 0, 3 }, { 208, 0, 3 }, { 209, 0, 3 }, { 210, 0, 3 }, { 211, 0, 3 }, { 212, 0, 2 }, { 212, 1, 3 }, { 213, 0, 2 }, { 213, 1, 3 }, { 215, 0, 21 }, { 218, 0, 15 }, { 219, 0, 16 }, { 223, 1, 3 }, { 227, 0, 4 }, { 228, 0, 4 }, { 229, 0, 4 }, { 230, 0, 4 }, { 231, 0, 4 }, { 232, 0, 4 }, { 233, 0, 4 }, { 234, 0, 4 }, { 235, 0, 4 }, { 236, 0, 4 }, { 237, 0, 4 }, { 238, 0, 4 }, { 239, 0, 0 }, { 240, 0, 0 }, { 241, 0, 0 }, { 242, 0, 0 }, { 243, 0, 3 }, { 244, 0, 3 }, { 245, 0, 3 }, { 246, 0, 3 }, { 247, 0, 3 }, { 248, 0, 3 }, { 249, 0, 19 }, { 250, 0, 19 }, { 251, 0, 19 }, { 252, 0, 3 }, { 253, 0, 3 } };
