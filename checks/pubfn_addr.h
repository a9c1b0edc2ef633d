/* functions that exist in the builds with noscrypt only */
#pragma weak nostr_nip44_encrypt
#pragma weak nostr_nip04_encrypt
#pragma weak nostr_nip44_decrypt
#pragma weak nostr_nip04_decrypt
#pragma weak nostr_nip17_create_rumor
#pragma weak nostr_nip17_create_seal
#pragma weak nostr_nip17_create_gift_wrap
#pragma weak nostr_nip17_send_dm
#pragma weak nostr_nip17_unwrap_dm
#pragma weak nostr_nip59_wrap_event
#pragma weak nostr_nip59_unwrap_event
#pragma weak nostr_nip59_create_rumor
#pragma weak nostr_nip59_create_seal
#pragma weak nostr_nip59_create_gift_wrap
#pragma weak nostr_nip46_parse_request
#pragma weak nostr_nip46_create_response
#pragma weak nostr_nip46_request_free
#pragma weak nostr_nip46_response_free
#pragma weak nostr_nip47_parse_connection_uri
#pragma weak nostr_nip47_free_connection
#pragma weak nostr_nip47_parse_info_event
#pragma weak nostr_nip47_create_request_event
#pragma weak nostr_nip47_parse_response_event
#pragma weak nostr_nip47_parse_notification_event
#pragma weak nostr_nip47_create_pay_invoice_params
#pragma weak nostr_nip47_create_get_balance_params
#pragma weak nostr_nip47_create_make_invoice_params
#pragma weak nostr_nip47_create_list_transactions_params
#pragma weak nostr_nip47_create_lookup_invoice_params
#pragma weak nostr_nip47_create_pay_keysend_params
#pragma weak nostr_nip47_create_multi_pay_invoice_params
#pragma weak nostr_nip47_create_get_info_params
#pragma weak nostr_nip47_parse_balance_response
#pragma weak nostr_nip47_parse_pay_invoice_response
#pragma weak nostr_nip47_parse_info_response
#pragma weak nostr_nip47_session_create
#pragma weak nostr_nip47_session_add_permission
#pragma weak nostr_nip47_session_check_permission
#pragma weak nostr_nip47_session_get_connection
#pragma weak nostr_nip47_session_extend
#pragma weak nostr_nip47_session_destroy
static const struct { const char *f; const void *a; } SOME[] = {
    { "nostr_nip44_encrypt", (const void *)nostr_nip44_encrypt }, { "nostr_nip04_encrypt", (const void *)nostr_nip04_encrypt }, { "nostr_nip44_decrypt", (const void *)nostr_nip44_decrypt }, { "nostr_nip04_decrypt", (const void *)nostr_nip04_decrypt },
    { "nostr_nip17_create_rumor", (const void *)nostr_nip17_create_rumor }, { "nostr_nip17_create_seal", (const void *)nostr_nip17_create_seal }, { "nostr_nip17_create_gift_wrap", (const void *)nostr_nip17_create_gift_wrap }, { "nostr_nip17_send_dm", (const void *)nostr_nip17_send_dm },
    { "nostr_nip17_unwrap_dm", (const void *)nostr_nip17_unwrap_dm }, { "nostr_nip59_wrap_event", (const void *)nostr_nip59_wrap_event }, { "nostr_nip59_unwrap_event", (const void *)nostr_nip59_unwrap_event }, { "nostr_nip59_create_rumor", (const void *)nostr_nip59_create_rumor },
    { "nostr_nip59_create_seal", (const void *)nostr_nip59_create_seal }, { "nostr_nip59_create_gift_wrap", (const void *)nostr_nip59_create_gift_wrap }, { "nostr_nip46_parse_request", (const void *)nostr_nip46_parse_request }, { "nostr_nip46_create_response", (const void *)nostr_nip46_create_response },
    { "nostr_nip46_request_free", (const void *)nostr_nip46_request_free }, { "nostr_nip46_response_free", (const void *)nostr_nip46_response_free }, { "nostr_nip47_parse_connection_uri", (const void *)nostr_nip47_parse_connection_uri }, { "nostr_nip47_free_connection", (const void *)nostr_nip47_free_connection },
    { "nostr_nip47_parse_info_event", (const void *)nostr_nip47_parse_info_event }, { "nostr_nip47_create_request_event", (const void *)nostr_nip47_create_request_event }, { "nostr_nip47_parse_response_event", (const void *)nostr_nip47_parse_response_event }, { "nostr_nip47_parse_notification_event", (const void *)nostr_nip47_parse_notification_event },
    { "nostr_nip47_create_pay_invoice_params", (const void *)nostr_nip47_create_pay_invoice_params }, { "nostr_nip47_create_get_balance_params", (const void *)nostr_nip47_create_get_balance_params }, { "nostr_nip47_create_make_invoice_params", (const void *)nostr_nip47_create_make_invoice_params }, { "nostr_nip47_create_list_transactions_params", (const void *)nostr_nip47_create_list_transactions_params },
    { "nostr_nip47_create_lookup_invoice_params", (const void *)nostr_nip47_create_lookup_invoice_params }, { "nostr_nip47_create_pay_keysend_params", (const void *)nostr_nip47_create_pay_keysend_params }, { "nostr_nip47_create_multi_pay_invoice_params", (const void *)nostr_nip47_create_multi_pay_invoice_params }, { "nostr_nip47_create_get_info_params", (const void *)nostr_nip47_create_get_info_params },
    { "nostr_nip47_parse_balance_response", (const void *)nostr_nip47_parse_balance_response }, { "nostr_nip47_parse_pay_invoice_response", (const void *)nostr_nip47_parse_pay_invoice_response }, { "nostr_nip47_parse_info_response", (const void *)nostr_nip47_parse_info_response }, { "nostr_nip47_session_create", (const void *)nostr_nip47_session_create },
    { "nostr_nip47_session_add_permission", (const void *)nostr_nip47_session_add_permission }, { "nostr_nip47_session_check_permission", (const void *)nostr_nip47_session_check_permission }, { "nostr_nip47_session_get_connection", (const void *)nostr_nip47_session_get_connection }, { "nostr_nip47_session_extend", (const void *)nostr_nip47_session_extend },
    { "nostr_nip47_session_destroy", (const void *)nostr_nip47_session_destroy },
};
static int there(const char *f) { for (int i = 0; i < (int)(sizeof SOME / sizeof *SOME); i++) if (!strcmp(SOME[i].f, f)) return SOME[i].a != NULL; return 1; }
