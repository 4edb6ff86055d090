/* a module that notes when it is stopped */
#include "stdafx.h"
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define STR_(a) #a
#define STR(a) STR_(a)
extern void vnet_note(const char *s);
static int started;
static ERROR_CODE probe_start(struct environment_t *environment, struct module_t *module) {
    module->name = (unsigned char *) STR(NAME); module->version = (unsigned char *) "1"; started++;
    RAISE_NO_ERROR;
}
static ERROR_CODE probe_stop(struct environment_t *environment, struct module_t *module) {
    vnet_note(started == 1 ? STR(NAME) : "notstarted"); started--;
    RAISE_NO_ERROR;
}
static ERROR_CODE probe_error(unsigned char **message) { *message = (unsigned char *) "none"; RAISE_NO_ERROR; }
ERROR_CODE CAT(info_module_, NAME)(struct module_t *module) {
    module->name = (unsigned char *) STR(NAME);
    module->name_s = (unsigned char *) STR(NAME);
    module->version = (unsigned char *) "1";
    module->type = MODULE_TYPE_HTTP_HANDLER;
    module->start = probe_start; module->stop = probe_stop; module->info = CAT(info_module_, NAME); module->error = probe_error;
    RAISE_NO_ERROR;
}
