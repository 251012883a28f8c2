/* Script-driven decode: reads commands, prints what the library reports. */
#include "intel-pt.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include <unistd.h>
#include <utime.h>
static char dir[] = "/tmp/demoXXXXXX"; static uint8_t trace[1 << 20]; static size_t tn; static struct pt_config cfg; static struct pt_image *img[4]; static struct pt_image_section_cache *isc; static int isids[64];
static const char *path(const char *n) { static char b[256]; snprintf(b, sizeof b, "%s/%s", dir, n); return b; }
static struct pt_asid as(const char *t) { struct pt_asid a; pt_asid_init(&a); if (t && *t == 'v') a.vmcs = strtoull(t + 1, 0, 16); else if (t) a.cr3 = strtoull(t, 0, 16); return a; }
static const char *evn[] = { "enabled","disabled","async_disabled","async_branch","paging","async_paging","overflow","exec_mode","tsx","stop","vmcs","async_vmcs","exstop","mwait","pwre","pwrx","ptwrite","tick","cbr","mnt","tip","tnt","iflags","interrupt","iret","smi","rsm","sipi","init","vmentry","vmexit","shutdown","uintr","uiret","trig" };
static void pev(const struct pt_event *e)
{
    printf("event %s%s%s", e->type < 35 ? evn[e->type] : "?", e->status_update ? " su" : "", e->ip_suppressed ? " noip" : "");
    if (cfg.flags.variant.insn.enable_tick_events) printf(" tsc %" PRIx64 " %u %u", e->tsc, e->lost_mtc, e->lost_cyc);
    switch (e->type) { case ptev_enabled: printf(" %" PRIx64 "%s", e->variant.enabled.ip, e->variant.enabled.resumed ? " resumed" : ""); break; case ptev_disabled: printf(" %" PRIx64, e->variant.disabled.ip); break; case ptev_async_disabled: printf(" %" PRIx64 " -> %" PRIx64, e->variant.async_disabled.at, e->variant.async_disabled.ip); break; case ptev_async_branch: printf(" %" PRIx64 " -> %" PRIx64, e->variant.async_branch.from, e->variant.async_branch.to); break;
    case ptev_paging: printf(" cr3 %" PRIx64 " nr %u", e->variant.paging.cr3, e->variant.paging.non_root); break; case ptev_async_paging: printf(" cr3 %" PRIx64 " nr %u ip %" PRIx64, e->variant.async_paging.cr3, e->variant.async_paging.non_root, e->variant.async_paging.ip); break; case ptev_overflow: printf(" %" PRIx64, e->variant.overflow.ip); break; case ptev_exec_mode: printf(" %d %" PRIx64, e->variant.exec_mode.mode, e->variant.exec_mode.ip); break; case ptev_tsx: printf(" %u%u %" PRIx64, e->variant.tsx.speculative, e->variant.tsx.aborted, e->variant.tsx.ip); break;
    case ptev_vmcs: printf(" %" PRIx64, e->variant.vmcs.base); break; case ptev_async_vmcs: printf(" %" PRIx64 " %" PRIx64, e->variant.async_vmcs.base, e->variant.async_vmcs.ip); break; case ptev_ptwrite: printf(" %" PRIx64 " %u %" PRIx64, e->variant.ptwrite.payload, e->variant.ptwrite.size, e->variant.ptwrite.ip); break; case ptev_cbr: printf(" %u", e->variant.cbr.ratio); break; case ptev_tip: printf(" %" PRIx64, e->variant.tip.ip); break; case ptev_tnt: printf(" %" PRIx64 " %u", e->variant.tnt.bits, e->variant.tnt.size); break;
    case ptev_mwait: printf(" %x %x %" PRIx64, e->variant.mwait.hints, e->variant.mwait.ext, e->variant.mwait.ip); break; case ptev_pwre: printf(" %u %u %u", e->variant.pwre.state, e->variant.pwre.sub_state, e->variant.pwre.hw); break; case ptev_pwrx: printf(" %u %u", e->variant.pwrx.last, e->variant.pwrx.deepest); break; case ptev_exstop: printf(" %" PRIx64, e->variant.exstop.ip); break; case ptev_interrupt: printf(" %u %" PRIx64 " cr2 %u %" PRIx64, e->variant.interrupt.vector, e->variant.interrupt.ip, e->variant.interrupt.has_cr2, e->variant.interrupt.cr2); break; case ptev_iret: printf(" %" PRIx64, e->variant.iret.ip); break; case ptev_vmexit: printf(" v %u %u r %u %" PRIx64 " q %u %" PRIx64 " ip %" PRIx64, e->variant.vmexit.has_vector, e->variant.vmexit.vector, e->variant.vmexit.has_vmxr, e->variant.vmexit.vmxr, e->variant.vmexit.has_vmxq, e->variant.vmexit.vmxq, e->variant.vmexit.ip); break;
    case ptev_trig: printf(" %x ip %" PRIx64 " icnt %u", e->variant.trig.trbv, e->variant.trig.ip, e->variant.trig.icnt); break; case ptev_iflags: printf(" %u %" PRIx64, e->variant.iflags.iflag, e->variant.iflags.ip); break; case ptev_uintr: printf(" %u %" PRIx64, e->variant.uintr.vector, e->variant.uintr.ip); break; case ptev_tick: printf(" %" PRIx64, e->variant.tick.ip); break; default: break; }
    printf("\n");
}
static const char *er(int r) { static const char *n[] = { "ok","internal","invalid","nosync","bad_opc","bad_packet","bad_context","eos","bad_query","nomem","bad_config","noip","ip_suppressed","nomap","bad_insn","no_time","no_cbr","bad_image","bad_lock","not_supported","retstack_empty","bad_retcomp","bad_status_update","no_enable","event_ignored","overflow","bad_file","bad_cpu" }; return r >= 0 ? "ok" : -r < 28 ? n[-r] : "?"; }
static void run_insn(int blk, long syncs, uint64_t at)
{
    struct pt_insn_decoder *i = blk ? NULL : pt_insn_alloc_decoder(&cfg); struct pt_block_decoder *b = blk ? pt_blk_alloc_decoder(&cfg) : NULL; int st = 0, n = 0;
    if (blk) pt_blk_set_image(b, img[0]); else pt_insn_set_image(i, img[0]);
    for (; syncs > 0; syncs--) {
        st = at != UINT64_MAX ? blk ? pt_blk_sync_set(b, at) : pt_insn_sync_set(i, at) : blk ? pt_blk_sync_forward(b) : pt_insn_sync_forward(i);
        printf("sync %s\n", er(st)); if (st < 0) break;
        while (n++ < 100000) {
            if (st & pts_event_pending) { struct pt_event e; st = blk ? pt_blk_event(b, &e, sizeof e) : pt_insn_event(i, &e, sizeof e); if (st < 0) break; pev(&e); continue; }
            if (blk) { struct pt_block k; memset(&k, 0, sizeof k); st = pt_blk_next(b, &k, sizeof k); if (k.ninsn) printf("block %" PRIx64 "..%" PRIx64 " n %u mode %d class %d isid %d%s%s\n", k.ip, k.end_ip, k.ninsn, k.mode, k.iclass, k.isid, k.speculative ? " spec" : "", k.truncated ? " trunc" : ""); }
            else { struct pt_insn k; memset(&k, 0, sizeof k); st = pt_insn_next(i, &k, sizeof k); if (st >= 0 || k.iclass != ptic_unknown) { int j; printf("insn %" PRIx64 " mode %d class %d isid %d%s ", k.ip, k.mode, k.iclass, k.isid, k.speculative ? " spec" : ""); for (j = 0; j < k.size; j++) printf("%02x", k.raw[j]); printf("\n"); } }
            if (st < 0) break;
        }
        printf("end %s\n", er(st));
    }
    if (blk) pt_blk_free_decoder(b); else pt_insn_free_decoder(i);
}
int main(void)
{
    char line[65536]; if (!mkdtemp(dir)) return 2;
    pt_config_init(&cfg); img[0] = pt_image_alloc("a"); img[1] = pt_image_alloc("b");
    while (fgets(line, sizeof line, stdin)) {
        char *t = strtok(line, " \n"); if (!t || *t == '#') continue;
        if (!strcmp(t, "file")) { FILE *f = fopen(path(strtok(NULL, " \n")), "wb"); unsigned v; while ((t = strtok(NULL, " \n"))) { char *star = strchr(t, '*'); long rep = star ? atol(star + 1) : 1; while (rep--) { const char *p; for (p = t; p[0] && p[1] && p[0] != '*'; p += 2) { sscanf(p, "%2x", &v); fputc((int) v, f); } } } fclose(f); }
        else if (!strcmp(t, "touch")) { char *n = strtok(NULL, " \n"); struct utimbuf u; u.actime = u.modtime = atol(strtok(NULL, " \n")); utime(path(n), &u); }
        else if (!strcmp(t, "add") || !strcmp(t, "cache")) { int c = *t == 'c'; int k = atoi(strtok(NULL, " \n")); char *n = strtok(NULL, " \n"); uint64_t o = strtoull(strtok(NULL, " \n"), 0, 16), s = strtoull(strtok(NULL, " \n"), 0, 16), v = strtoull(strtok(NULL, " \n"), 0, 16); t = strtok(NULL, " \n"); struct pt_asid a = as(t); int r;
            if (c) { if (!isc) { isc = pt_iscache_alloc("c"); pt_iscache_set_limit(isc, 1 << 20); } r = pt_iscache_add_file(isc, path(n), o, s, v); if (r > 0) r = pt_image_add_cached(img[k], isc, r, &a); printf("cache %s\n", er(r)); } else { r = pt_image_add_file(img[k], path(n), o, s, &a, v); printf("add %s\n", er(r)); } }
        else if (!strcmp(t, "copy")) { int d = atoi(strtok(NULL, " \n")), s = atoi(strtok(NULL, " \n")); int r = pt_image_copy(img[d], img[s]); printf("copy %d\n", r); }
        else if (!strcmp(t, "remove")) { int k = atoi(strtok(NULL, " \n")); char *n = strtok(NULL, " \n"); t = strtok(NULL, " \n"); struct pt_asid a = as(t); printf("remove %d\n", pt_image_remove_by_filename(img[k], path(n), &a)); }
        else if (!strcmp(t, "trace")) { unsigned v; while ((t = strtok(NULL, " \n"))) { const char *p; if (!strcmp(t, "psb")) { int k; for (k = 0; k < 8; k++) { trace[tn++] = 2; trace[tn++] = 0x82; } continue; } if (!strcmp(t, "psbend")) { trace[tn++] = 2; trace[tn++] = 0x23; continue; } if (*t == '@') { uint64_t ip = strtoull(t + 4, 0, 16); int k; uint8_t op = !strncmp(t, "@fup", 4) ? 0x1d : !strncmp(t, "@tip", 4) ? 0x0d : !strncmp(t, "@pge", 4) ? 0x11 : 0x01; trace[tn++] = (uint8_t)(op | 6 << 5); for (k = 0; k < 8; k++) trace[tn++] = (uint8_t)(ip >> 8 * k); continue; } { char *star = strchr(t, '*'); long rep = star ? atol(star + 1) : 1; while (rep--) for (p = t; p[0] && p[1] && *p != '*'; p += 2) { sscanf(p, "%2x", &v); trace[tn++] = (uint8_t) v; } } } }
        else if (!strcmp(t, "reset")) tn = 0;
        else if (!strcmp(t, "flag")) { t = strtok(NULL, " \n"); if (!strcmp(t, "call")) cfg.flags.variant.block.end_on_call = 1; else if (!strcmp(t, "jump")) cfg.flags.variant.block.end_on_jump = 1; else if (!strcmp(t, "tick")) cfg.flags.variant.insn.enable_tick_events = 1; else if (!strcmp(t, "iflags")) cfg.flags.variant.insn.enable_iflags_events = 1; }
        else if (!strcmp(t, "erratum")) { t = strtok(NULL, " \n"); struct pt_errata *e = &cfg.errata; if (!strcmp(t, "bdm70")) e->bdm70 = 1; else if (!strcmp(t, "bdm64")) e->bdm64 = 1; else if (!strcmp(t, "skd007")) e->skd007 = 1; else if (!strcmp(t, "skd022")) e->skd022 = 1; else if (!strcmp(t, "skd010")) e->skd010 = 1; else if (!strcmp(t, "skl014")) e->skl014 = 1; else if (!strcmp(t, "apl12")) e->apl12 = 1; else if (!strcmp(t, "apl11")) e->apl11 = 1; else if (!strcmp(t, "skz84")) e->skz84 = 1; else if (!strcmp(t, "skl168")) e->skl168 = 1; }
        else if (!strcmp(t, "filter") || !strcmp(t, "stoprange")) { struct pt_conf_addr_filter *f = &cfg.addr_filter; int k = atoi(strtok(NULL, " \n")), v = *t == 'f' ? 1 : 2; uint64_t a = strtoull(strtok(NULL, " \n"), 0, 16), b = strtoull(strtok(NULL, " \n"), 0, 16); switch (k) { case 0: f->config.ctl.addr0_cfg = v; f->addr0_a = a; f->addr0_b = b; break; case 1: f->config.ctl.addr1_cfg = v; f->addr1_a = a; f->addr1_b = b; break; case 2: f->config.ctl.addr2_cfg = v; f->addr2_a = a; f->addr2_b = b; break; case 3: f->config.ctl.addr3_cfg = v; f->addr3_a = a; f->addr3_b = b; break; } }
        else if (!strcmp(t, "freq")) { cfg.mtc_freq = (uint8_t) atoi(strtok(NULL, " \n")); cfg.nom_freq = (uint8_t) atoi(strtok(NULL, " \n")); cfg.cpuid_0x15_eax = (uint32_t) atoi(strtok(NULL, " \n")); cfg.cpuid_0x15_ebx = (uint32_t) atoi(strtok(NULL, " \n")); }
        else if (!strcmp(t, "run")) {
            uint8_t *b = malloc(tn); memcpy(b, trace, tn); cfg.begin = b; cfg.end = b + tn; t = strtok(NULL, " \n"); char *n = strtok(NULL, " \n"); long k = n ? atol(n) : 1; n = strtok(NULL, " \n"); uint64_t at = n ? strtoull(n, 0, 16) : UINT64_MAX;
            if (*t == 'i') run_insn(0, k, at); else if (*t == 'b') run_insn(1, k, at);
            else if (*t == 'e') { struct pt_event_decoder *d = pt_evt_alloc_decoder(&cfg); int r = at != UINT64_MAX ? pt_evt_sync_set(d, at) : pt_evt_sync_forward(d); printf("sync %s\n", er(r)); while (r >= 0) { struct pt_event e; r = pt_evt_next(d, &e, sizeof e); if (r >= 0) pev(&e); } printf("end %s\n", er(r)); pt_evt_free_decoder(d); }
            else if (*t == 'w') { struct pt_event_decoder *d = pt_evt_alloc_decoder(&cfg); int r = 0; for (; k > 0 && r >= 0; k--) { uint64_t o = 0; r = pt_evt_sync_backward(d); pt_evt_get_sync_offset(d, &o); printf("back %s %" PRIx64 "\n", er(r), r < 0 ? 0 : o); } pt_evt_free_decoder(d); }
            free(b);
        }
        fflush(stdout);
    }
    pt_image_free(img[0]); pt_image_free(img[1]); pt_iscache_free(isc);
    { char c[300]; snprintf(c, sizeof c, "rm -rf '%s'", dir); if (system(c)) return 2; }
    return 0;
}
