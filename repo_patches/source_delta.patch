From ff795fa52f80d78c472ca7a2befed5bd9daeb3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 01/40] fix: keep the bus parity bit out of the data byte taken
 from bus-out

The 1052, 1442 and 1443 stored the whole 9 bit bus-out word as the data
byte.  The parity bit then indexed odd_parity[] out of bounds when the byte
was put back on bus-in, and drove bad parity.
---
 src/model1052/model1052.c | 2 +-
 src/model1442/model1442.c | 2 +-
 src/model1443/model1443.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index b71378f..221a553 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -671,7 +671,7 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out;
+                          ctx->data = bus_out & 0xff;
                           add_event(unit, &send_callback, 5000, NULL, 0);
                       }
                  }
diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..495826b 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -724,7 +724,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..35884ba 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -608,7 +608,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                       ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
                       ctx->state = STATE_END;
                   } else {
-                      ctx->data = bus_out; /* Grab data */
+                      ctx->data = bus_out & 0xff; /* Grab data */
                       ctx->state = STATE_INIT_STAT;       /* Wait for channel to be idle again */
                       ctx->buf[ctx->col] = ctx->data & 0xff;
                       ctx->col++;
-- 
2.43.0


From c68eda1dc07510b0962dadb3c09c43634af64bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 02/40] fix: system reset drops a short busy status and clears
 stacked status

With operational out and suppress out down the 1052, 1442 and 2415 left
status in raised when the reset arrived during a short busy sequence (the
device is not selected then), and kept stacked/pending status, so a device
could present status for an operation that the reset had ended.
---
 src/model1052/model1052.c | 4 ++++
 src/model1442/model1442.c | 3 +++
 src/model2415/model2415.c | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 221a553..4df89f3 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -263,11 +263,15 @@ model1052_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     if ((*tags & (CHAN_OPR_OUT|CHAN_SUP_OUT)) == 0) {
         if (unit->selected) {
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
+        } else if (ctx->state == STATE_BUSY) {
+           *tags &= ~(CHAN_STA_IN);
         }
         log_device("1052: %03x reset\n",unit->addr);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
+        ctx->status = 0;
         ctx->sense = 0;
         ctx->cmd = 0;
         ctx->cmd_done = 0;
diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 495826b..f64c861 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -317,10 +317,13 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     if ((*tags & (CHAN_OPR_OUT|CHAN_SUP_OUT)) == 0) {
         if (unit->selected) {
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
+        } else if (ctx->state == STATE_BUSY) {
+           *tags &= ~(CHAN_STA_IN);
         }
         log_device("1442: %03x reset\n",unit->addr);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
         ctx->status = 0;
         ctx->sense = 0;
diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..468c5ea 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -890,11 +890,15 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     if ((*tags & (CHAN_OPR_OUT|CHAN_SUP_OUT)) == 0) {
         if (unit->selected) {
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
+        } else if (ctx->state == STATE_BUSY) {
+           *tags &= ~(CHAN_STA_IN);
         }
         log_device("2415: %03x reset\n",unit->addr);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
+        ctx->status = 0;
         ctx->sense[0] = 0;
         ctx->cmd = 0;
         ctx->cmd_done = 0;
-- 
2.43.0


From 25a5b74d8649c42cb52eb4613b9214f83ad3f545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 03/40] fix: 2415 halt during tape motion returns to idle
 instead of raising status unselected

Halt I/O during a motion command dropped operational in and select, then
went to the ending status state, which raised status in (and could go on to
raise service in) on an interface the control unit no longer held.
---
 src/model2415/model2415.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 468c5ea..db2f60c 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1251,12 +1251,7 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  ctx->status |= SNS_CHNEND;
                  *tags &= ~(CHAN_OPR_IN);
                  unit->selected = 0;
-                 if ((ctx->cmd & 0x10) != 0) {
-                    ctx->delay = 1000;
-                    ctx->state = STATE_END_STATUS;
-                 } else {
-                    ctx->state = STATE_IDLE;
-                 }
+                 ctx->state = STATE_IDLE;
                  break;
              }
 
-- 
2.43.0


From c66633634806d38d17d07b08ebbeebd76dda6029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 04/40] fix: 2415 address in keeps showing the selected unit
 while waiting for a command

The command state overwrote the address byte with the control unit's base
address, so a channel sampling address in late saw the wrong unit.
---
 src/model2415/model2415.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index db2f60c..8741c95 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1018,7 +1018,8 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             unit->request = 0;
 
             log_device("2415: %03x waiting command %02x\n",unit->addr, ctx->status);
-            *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
+            *bus_in = ctx->cur_unit | (unit->addr & 0xf8);
+            *bus_in |= odd_parity[*bus_in];
             /* we get command out, process command */
             if ((*tags & (CHAN_CMD_OUT)) != 0) {
                 *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
-- 
2.43.0


From c4a325e1be5cd52646930e90bbdf4767197783c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 05/40] fix: 2844 answers only its own address

The compare was or-ed with the parity check (and included the channel digit),
so the storage control accepted every address with good parity.
---
 src/model2844/model2844.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 3d402ec..22ab326 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -834,7 +834,7 @@ model2844_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
     /* If address out, see if we are target */
     if ((*tags & CHAN_ADR_OUT) != 0) {
-        if ((bus_out & 0xf0) == ctx->addr ||
+        if ((bus_out & 0xf0) == (ctx->addr & 0xf0) &&
               ((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) == 0) {
             /* Respond with busy if status still raised */
             if ((ctx->IG_REG & BIT5) != 0) {
-- 
2.43.0


From 72953051263fd07f6b859ee3c5d41082c1de7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 06/40] fix: 1443 checks command parity before acting on the
 command

The parity of the command byte was tested after the command had been decoded:
a feed with bad parity still moved the paper, and a printer that was not ready
never reported the bus-out check.
---
 src/model1443/model1443.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 35884ba..980f486 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -258,6 +258,12 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  ctx->status = 0;
                  ctx->state = STATE_CMD;
                  *tags &= ~(CHAN_ADR_IN);                 /* Clear address in */
+                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
+                     ctx->cmd = 0;
+                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+                     ctx->sense |= SENSE_BUSCHK;
+                     break;
+                 }
                  if (ctx->ready == 0 || ctx->file == 0) {
                      ctx->sense = SENSE_INTERV;
                      ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
@@ -330,11 +336,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         ctx->sense = SENSE_CMDREJ;     /* Invalid command */
                         break;
                  }
-                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                     ctx->cmd = 0;
-                     ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
-                     ctx->sense |= SENSE_BUSCHK;
-                 }
              }
              break;
 
-- 
2.43.0


From f1dd0cca8b321d6955176d3e2413427fa644154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 07/40] fix: 2844 system reset drops the interface it holds and
 clears pending requests

---
 src/model2844/model2844.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 22ab326..fd0fb45 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -819,11 +819,16 @@ model2844_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
     /* Reset device if OPER OUT is dropped */
     if ((*tags & (CHAN_OPR_OUT|CHAN_SUP_OUT)) == 0) {
-        if (ctx->selected) {
+        if (ctx->selected || ctx->opr_in || ctx->sta_in) {
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
            ctx->sta_in = 0;
         }
         ctx->selected = 0;
+        ctx->addressed = 0;
+        ctx->request = 0;
+        ctx->opr_in = 0;
+        ctx->srv_in = 0;
+        ctx->svc_req = 0;
         ctx->WX = 0;
         return;
     }
-- 
2.43.0


From 68c8bdd0d20c299ececf44a2d85cc3fe72951618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:26 +0000
Subject: [PATCH 08/40] fix: cancel_event left a freed event linked when it was
 not at the head of the list

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From ff90d1a55cfb20f12531fcc762ac96effd27985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 09/40] fix: advance called event functions with the event
 still on the list, cancelling it there freed it twice

---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..963e516 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Unlink the event first, its function may add or cancel events */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From 6a9bd447f128f840d1afcebd9d88232f018201a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 10/40] fix: channel numbers 6 and 7 indexed past the end of
 the channel table

---
 src/device/device.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/device/device.c b/src/device/device.c
index 0d6f7d7..7f99b13 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -118,6 +118,10 @@ add_chan(struct _device *dev, uint16_t addr)
       uint16_t    ch = (addr >> 8) & 0x7;
       struct   _device *d;
 
+      if (ch >= (sizeof(chan)/sizeof(struct _device *))) {
+          log_warn("No such channel for device %03x\n", addr);
+          return;
+      }
       dev->addr = addr;
       dev->next = NULL;
       /* If channel empty, add it */
@@ -141,6 +145,9 @@ find_chan(uint16_t addr, uint16_t mask)
       uint16_t    ch = (addr >> 8) & 0x7;
       struct      _device *d;
 
+      if (ch >= (sizeof(chan)/sizeof(struct _device *))) {
+          return NULL;
+      }
       for (d = chan[ch]; d != NULL; d = d->next) {
           if ((d->addr & mask) == (addr & mask))
               return d;
@@ -157,6 +164,9 @@ del_chan(struct _device *dev, uint16_t addr)
       uint16_t    ch = (addr >> 8) & 0x7;
       struct   _device *d;
 
+      if (ch >= (sizeof(chan)/sizeof(struct _device *))) {
+          return;
+      }
       /* If channel empty, nothing to do. */
       if (chan[ch] == NULL) {
           return;
-- 
2.43.0


From b6d7683852bcc2762ef327d65afe024c006a545b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:22 +0000
Subject: [PATCH 11/40] fix: del_disk compared the list head with the drive,
 deleting NULL from an empty list crashed

---
 src/device/device.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/device/device.c b/src/device/device.c
index 7f99b13..d691c0f 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -212,11 +212,6 @@ del_disk(void *drive)
 {
     struct _disk   *d, *p = NULL;
 
-    if (disk == drive) {
-       disk = disk->next;
-       return;
-    }
-
     for (d = disk; d != NULL; d = d->next) {
         if (d->disk == drive) {
             if (p == NULL) {
-- 
2.43.0


From 281bca56b7c4b1d28976d00d30c4a6356b92e4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 12/40] fix: get_model and get_addr overran their 20 byte
 buffers and kept values of the previous line

---
 src/conf.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..71b5aab 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -104,6 +104,10 @@ get_model(struct _option *opt)
     char            temp1[20];
     char            temp2[20];
     int             flags = 0;
+    /* Nothing carries over from the previous line */
+    memset(opt, 0, sizeof(struct _option));
+    memset(temp1, 0, sizeof(temp1));
+    memset(temp2, 0, sizeof(temp2));
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
@@ -113,7 +117,7 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -133,7 +137,6 @@ get_model(struct _option *opt)
             len++;
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
@@ -187,9 +190,10 @@ get_addr(struct _option *opt)
         return 0;
     p = &temp1[0];
     len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
+    while (len < 19 && isxdigit(*line_ptr)) {
        *p = toupper(*line_ptr);
        p++;
+       len++;
        line_ptr++;
     }
     *p = '\0';
-- 
2.43.0


From 8b0d96c0db3f35a12844c010a48d0631dedb0eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 13/40] fix: get_string ran past the end of an unterminated
 quoted string, get_option past its 20 byte buffer

---
 src/conf.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 71b5aab..cac85a4 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -234,11 +234,14 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
-       if (*line_ptr == '"' && quote) {
+    while (len < 1023) {
+       if (*line_ptr == '\0') {
+           break;
+       } else if (*line_ptr == '"' && quote) {
            line_ptr++;
            if (*line_ptr == '"') {
                *p = '"';
+               p++;
                line_ptr++;
                len++;
            } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
@@ -279,7 +282,7 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
+    while (len < 19 && (isalnum(*line_ptr) || *line_ptr == '-')) {
        *p = toupper(*line_ptr);
        p++;
        len++;
-- 
2.43.0


From 703ed266e5dd5132ea0759d8b164887dcd61870c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 14/40] fix: get_option never advanced past a comma or other
 non-option character, looping forever

---
 src/conf.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index cac85a4..65d198d 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -273,8 +273,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space and option separators */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -288,6 +288,12 @@ get_option(struct _option *opt)
        len++;
        line_ptr++;
     }
+    /* Not an option, hand back the character so caller can complain */
+    if (len == 0 && *line_ptr != '=') {
+       *p = *line_ptr;
+       p++;
+       line_ptr++;
+    }
     *p = '\0';
     /* Check if we have equals sign */
     if (*line_ptr == '=') {
-- 
2.43.0


From d66e40e285e7e5513032e9f27f9ca2a964dc3f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 15/40] fix: 2415 unit numbers and model numbers beyond the six
 units overran the unit tables

---
 src/model2415/model2415.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 8741c95..a6c6675 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1354,6 +1354,10 @@ model2415_create(struct _option *opt)
          }
          i = opt->addr & 0x7;
          tape = (struct _2415_context *)dev2415->dev;
+         if (dev2415->bus_func != &model2415_dev || i >= tape->nunits) {
+             fprintf(stderr, "No such 2415 unit %s %03x\n", opt->opt, opt->addr);
+             return 0;
+         }
          tape->tape[i] = (struct _tape_buffer *)calloc(1, sizeof(struct _tape_buffer));
          tape->tape[i]->format = TRACK9;
          tape->supply_color[i] = 2;
@@ -1415,6 +1419,13 @@ model2415_create(struct _option *opt)
          dev2415->type_name = "2415";
          dev2415->n_units = 6;
          if (opt->flags & 1) {
+             /* Models 1 to 3 and 4 to 6 have two, four or six units */
+             if (opt->dash_num < 1 || opt->dash_num > 6) {
+                 fprintf(stderr, "Invalid 2415 model %d\n", opt->dash_num);
+                 free(tape);
+                 free(dev2415);
+                 return 0;
+             }
              if (opt->dash_num >= 4)
                  dev2415->n_units = (opt->dash_num - 3) * 2;
              else
-- 
2.43.0


From 5bc2de541b773527e6c197e3b6090b20c3fdb5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:55 +0000
Subject: [PATCH 16/40] fix: an unknown or missing tape or card FORMAT was
 taken for a valid one

---
 src/conf.c                | 2 +-
 src/model2415/model2415.c | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 65d198d..7a21563 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -336,7 +336,7 @@ get_index(struct _option *opt, char *list[])
 
     if (opt->string[0] == '\0') {
        fprintf(stderr, "Option %s requires a value\n", opt->opt);
-       return 0;
+       return -1;
     }
 
     for (i = 0; list[i] != NULL; i++) {
diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index a6c6675..3224ef5 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1381,6 +1381,12 @@ model2415_create(struct _option *opt)
                    ring = 1;
                } else if (strcmp(opts.opt, "FORMAT") == 0) {
                    fmt = get_index(&opts, tape_format_type);
+                   if (fmt < 0) {
+                       free(file);
+                       free(tape->tape[i]);
+                       tape->tape[i] = NULL;
+                       return 0;
+                   }
                } else if (strcmp(opts.opt, "800") == 0) {
                    den = 0;
                } else if (strcmp(opts.opt, "1600") == 0) {
-- 
2.43.0


From 3277c5b8272931156259eadd10a952d2f742c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 17/40] fix: 1442 option BLANK rejected every valid number of
 cards

---
 src/model1442/panel1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index 271c812..1720de9 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -98,7 +98,7 @@ model1442_create(struct _option *opt)
                empty_cards(ctx->feed);
            } else if (strcmp(opts.opt, "BLANK") == 0 && opts.flags == 1) {
                int num;
-               if (get_integer(&opts, &num) != 0)
+               if (get_integer(&opts, &num) == 0)
                    return 0;
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
-- 
2.43.0


From fba611b10a1ff7e12184611c34162afec77a7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:22 +0000
Subject: [PATCH 18/40] fix: 2030 model letters from V on overflowed the memory
 size to zero bytes

---
 src/model2030/model2030.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model2030/model2030.c b/src/model2030/model2030.c
index b3d6ddc..354e7e9 100644
--- a/src/model2030/model2030.c
+++ b/src/model2030/model2030.c
@@ -70,10 +70,11 @@ model2030_create(struct _option *opt)
     }
 
     if (opt->model != '\0') {
-        msize = 2048 << (opt->model - 'A');
-        if (msize > (64 * 1024)) {
+        /* Models A to F have 2K to 64K */
+        if (opt->model < 'A' || opt->model > 'F') {
             return 0;
         }
+        msize = 2048 << (opt->model - 'A');
     } else {
         msize = 64 * 1024;
     }
-- 
2.43.0


From 2c88e52509358f64a84bace28b23a61aea35b94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:26 +0000
Subject: [PATCH 19/40] fix: rejected 1442 and 1443 definitions left the device
 on the channel list

---
 src/model1442/panel1442.c | 9 ++++++++-
 src/model1443/model1443.c | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index 1720de9..b75bd04 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -85,6 +85,8 @@ model1442_create(struct _option *opt)
 
      /* Allocate structures to hold device information */
      dev1442 = model1442_init(opt->addr);
+     if (dev1442 == NULL)
+         return 0;
      ctx = (struct _1442_context *)dev1442->dev;
 
      /* Parse options given on definition */
@@ -92,14 +94,19 @@ model1442_create(struct _option *opt)
            if (strcmp(opts.opt, "FILE") == 0 && opts.flags == 1) {
                if (read_deck(ctx->feed, opts.string) != 1) {
                   log_error("Unable to attach deck %s\n", opts.string);
+                  del_chan(dev1442, opt->addr);
+                  free(dev1442);
                   return 0;
                }
            } else if (strcmp(opts.opt, "EMPTY") == 0) {
                empty_cards(ctx->feed);
            } else if (strcmp(opts.opt, "BLANK") == 0 && opts.flags == 1) {
                int num;
-               if (get_integer(&opts, &num) == 0)
+               if (get_integer(&opts, &num) == 0) {
+                   del_chan(dev1442, opt->addr);
+                   free(dev1442);
                    return 0;
+               }
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
                i = get_index(&opts, card_fmt_type);
diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 980f486..9241fb6 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -1109,6 +1109,7 @@ model1443_create(struct _option *opt)
                   lpr->row = 0;
                   if ((lpr->file_name = (char *)malloc(strlen(opts.string)+1)) == NULL) {
                       fclose(lpr->file);
+                      del_chan(dev1443, opt->addr);
                       free(lpr);
                       free(dev1443);
                       return 0;
@@ -1118,6 +1119,10 @@ model1443_create(struct _option *opt)
                }
            } else {
                fprintf(stderr, "Invalid option %s to 1443\n", opts.opt);
+               del_chan(dev1443, opt->addr);
+               if (lpr->file != NULL)
+                   fclose(lpr->file);
+               free(lpr->file_name);
                free(lpr);
                free(dev1443);
                return 0;
-- 
2.43.0


From a5e415cd32731abba3931849163a1e569176e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 20/40] fix: a 2314 could be attached to a device that is not a
 2844

---
 src/model2844/panel2844.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model2844/panel2844.c b/src/model2844/panel2844.c
index ee2701b..30a3561 100644
--- a/src/model2844/panel2844.c
+++ b/src/model2844/panel2844.c
@@ -138,6 +138,10 @@ model2314_create(struct _option *opt)
          return 0;
      }
      i = opt->addr & 0x7;
+     if (dev2844->bus_func != &model2844_dev) {
+         fprintf(stderr, "Not a 2844 control unit %s %03x\n", opt->opt, opt->addr);
+         return 0;
+     }
      ctx = (struct _2844_context *)dev2844->dev;
      if (ctx->disk[i] != NULL) {
          fprintf(stderr, "Duplicate device %s %03x\n", opt->opt, opt->addr);
-- 
2.43.0


From 4599a8a27e18a2ad84479ef6162f9844e7c0d7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 21/40] fix: device definitions that could not be carried out
 were reported as accepted

---
 src/model1442/panel1442.c | 8 ++++++--
 src/model2415/model2415.c | 2 ++
 src/model2844/panel2844.c | 2 ++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/model1442/panel1442.c b/src/model1442/panel1442.c
index b75bd04..32a9d9f 100644
--- a/src/model1442/panel1442.c
+++ b/src/model1442/panel1442.c
@@ -110,8 +110,12 @@ model1442_create(struct _option *opt)
                blank_deck(ctx->feed, num);
            } else if (strcmp(opts.opt, "FORMAT") == 0) {
                i = get_index(&opts, card_fmt_type);
-               if (i >= 0)
-                   ctx->feed->mode = i;
+               if (i < 0) {
+                   del_chan(dev1442, opt->addr);
+                   free(dev1442);
+                   return 0;
+               }
+               ctx->feed->mode = i;
            } else {
                fprintf(stderr, "Invalid option %s to 1442\n", opts.opt);
                del_chan(dev1442, opt->addr);
diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 3224ef5..092621e 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1359,6 +1359,8 @@ model2415_create(struct _option *opt)
              return 0;
          }
          tape->tape[i] = (struct _tape_buffer *)calloc(1, sizeof(struct _tape_buffer));
+         if (tape->tape[i] == NULL)
+             return 0;
          tape->tape[i]->format = TRACK9;
          tape->supply_color[i] = 2;
          tape->supply_label[i] = 1;
diff --git a/src/model2844/panel2844.c b/src/model2844/panel2844.c
index 30a3561..16b8668 100644
--- a/src/model2844/panel2844.c
+++ b/src/model2844/panel2844.c
@@ -113,6 +113,8 @@ model2844_create(struct _option *opt)
      }
 
      dev2844 = model2844_init(opt->addr);
+     if (dev2844 == NULL)
+         return 0;
 
      return 1;
 }
-- 
2.43.0


From bb345fd3aa14f4c851fe5ab534e1cc01ddb73c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 22/40] fix: vertical bar and braces used character codes that
 did not convert back

---
 src/device/card.c | 4 ++--
 src/device/xlat.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 036d5cd..8799767 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -113,8 +113,8 @@ static const uint16_t       ascii_to_hol_029[128] = {
    /*   p      q      r      s      t      u      v      w */
     0xC04, 0xC02, 0xC01, 0x680, 0x640, 0x620, 0x610, 0x608,
    /*   x      y      z      {      |      }      ~    del */
-   /*                      Y78    X78    X79  XTY18        */
-    0x604, 0x602, 0x601, 0x406, 0x806, 0x805, 0xF02,0xf000
+   /*                       XT    X78     YT    YT1        */
+    0x604, 0x602, 0x601, 0xA00, 0x806, 0x600, 0x700,0xf000
 };
 
 /* Ascii codes to IBM EBCDIC punch codes */
diff --git a/src/device/xlat.c b/src/device/xlat.c
index 63eafab..fc0f81e 100644
--- a/src/device/xlat.c
+++ b/src/device/xlat.c
@@ -58,7 +58,7 @@ const uint8_t ascii_to_ebcdic[128] = {
    /*  p     q     r     s     t     u     v      w */
     0x97, 0x98, 0x99, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6,
    /*  x     y     z     {     |     }     ~   del */
-    0xa7, 0xa8, 0xa9, 0xc0, 0x47, 0xd0, 0xa1, 0x6d,
+    0xa7, 0xa8, 0xa9, 0xc0, 0x4f, 0xd0, 0xa1, 0x6d,
 };
 
 const uint8_t ebcdic_to_ascii[256] = {
-- 
2.43.0


From 9cbc1d8f33e582ecb8b6ed59e75c56d85246c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:54 +0000
Subject: [PATCH 23/40] fix: 2030 interrupt priority micro-order tested channel
 1's latch for channel 2

CK=1A picks the highest pending interrupt. Its selector channel 2 arm looked
at sel_intrp_lch[0], so an interrupt latched on channel 2 alone was raised
but never selected, while a masked one on channel 1 was taken for channel 2's.
---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..bb07ba9 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1398,7 +1398,7 @@ cycle_2030()
            case 0x1A: /* Select interrupt SEL1 -> 0,x SEL2 -> x,0, timer -> 0,0 */
                        if ((cpu_2030.MASK & BIT1) && (sel_intrp_lch[0] || (cpu_2030.GF[0] & BIT4) != 0))
                           nextWX &= 0xffe;
-                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[0] || (cpu_2030.GF[1] & BIT4) != 0))
+                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[1] || (cpu_2030.GF[1] & BIT4) != 0))
                           nextWX &= 0xffd;
                        else if (((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) || timer_update)
                           nextWX &= 0xffc;
-- 
2.43.0


From c41337e94befba915e0a633f6604095b5f4d45c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:22 +0000
Subject: [PATCH 24/40] fix: clear the last group of control word bits for
 every line of the 2050 listing

---
 src/model2050/cros2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cros2050.c b/src/model2050/cros2050.c
index 6c40933..6a657d0 100644
--- a/src/model2050/cros2050.c
+++ b/src/model2050/cros2050.c
@@ -151,7 +151,7 @@ loop:
         /* Grab rest of line */
         j = b = 0;
         parity = 1;
-        bits[0] = bits[1] = bits[2] = bits[4] = 0;
+        bits[0] = bits[1] = bits[2] = bits[3] = bits[4] = 0;
         for (;*p != '\0' && *p != '\n'; p++) {
             if (*p == '0') {
                b++;
-- 
2.43.0


From c2dc36d236b419992920ec38f8d63665fa955632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:49 +0000
Subject: [PATCH 25/40] fix: writing after reading up to the end of the tape
 buffer wrote over the block just read

---
 src/device/tape.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..65067eb 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,10 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         /* Advance tape by size of buffer */
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From 9d4cb3c60be860af6722835cd6c01784f5f86e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 26/40] fix: running off the end of a tape inside a record used
 stale data or kept looping

---
 src/device/tape.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 65067eb..130719a 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -771,6 +771,8 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       if (r != TAPE_STATUS_OK)
+                           return r;
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
                        r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
@@ -785,6 +787,8 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_readbk_byte(tape, data);
+                       if (r != TAPE_STATUS_OK)
+                           return r;
                        if ((*data & IRG_MASK) != 0) {
                            tape->lrecl = 2;
                        } else {
@@ -854,6 +858,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         /* Make sure we are at end of record. */
                         while (tape->lrecl < tape->orecl) {
                              r = tape_read_frame(tape, &lrecl[0]);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* If simH style tape, make sure even number of bytes per record */
                         if ((tape->format & TAPE_FMT) == TYPE_TAP && tape->orecl & 1) {
@@ -923,6 +929,8 @@ tape_finish_rec(struct _tape_buffer *tape)
                         while (tape->lrecl > 0) {
                              r = tape_read_frame(tape, &lrecl[0]);
                              log_tape(" Tape read bk lrecl=%d\n", tape->lrecl);
+                             if (r != TAPE_STATUS_OK)
+                                 return r;
                         }
                         /* Read in 4 byte trailing record length logical record length */
                         for (i = 0; i < 4; i++) {
@@ -957,6 +965,9 @@ tape_finish_rec(struct _tape_buffer *tape)
                             r = tape_read_frame(tape, &lrecl[0]);
                             if (r == TAPE_STATUS_FILE_ERROR)
                                return r;
+                            /* Ran off either end of the tape */
+                            if (r == TAPE_STATUS_EOT || r == TAPE_STATUS_BOT)
+                               break;
                         }
                         break;
                    case FUNC_RDBACK:
@@ -965,6 +976,9 @@ tape_finish_rec(struct _tape_buffer *tape)
                             r = tape_read_frame(tape, &lrecl[0]);
                             if (r == TAPE_STATUS_FILE_ERROR)
                                return r;
+                            /* Ran off either end of the tape */
+                            if (r == TAPE_STATUS_EOT || r == TAPE_STATUS_BOT)
+                               break;
                         }
                         break;
                    }
-- 
2.43.0


From 7c24759ebd91e1289ce5e64b204f65891f9a4ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:32 +0000
Subject: [PATCH 27/40] fix: a failed or short read of the tape image left a
 negative length or a position outside the buffer

---
 src/device/tape.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 130719a..b7b8080 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -209,6 +209,11 @@ tape_read_byte(struct _tape_buffer *tape, uint8_t *data)
          lseek(tape->fd, tape->pos, SEEK_SET);
          tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
          tape->pos_buff = 0;
+         if (tape->len_buff < 0) {
+             tape->len_buff = 0;
+             log_error("Tape read failed %s\n", tape->file_name);
+             return TAPE_STATUS_FILE_ERROR;
+         }
          if (tape->len_buff <= 0) {
              tape->format |= TAPE_EOT;
              log_tape("Tape EOT\n");
@@ -254,6 +259,11 @@ tape_peek_byte(struct _tape_buffer *tape, uint8_t *data)
          lseek(tape->fd, tape->pos, SEEK_SET);
          tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
          tape->pos_buff = 0;
+         if (tape->len_buff < 0) {
+             tape->len_buff = 0;
+             log_error("Tape read failed %s\n", tape->file_name);
+             return TAPE_STATUS_FILE_ERROR;
+         }
          if (tape->len_buff <= 0) {
              log_tape("Tape EOT\n");
              return TAPE_STATUS_EOT;
@@ -337,22 +347,27 @@ tape_readbk_byte(struct _tape_buffer *tape, uint8_t *data)
             tape->len_buff = 0;
             return TAPE_STATUS_BOT;
          } else {
-             int       opos = -1;
+             off_t     npos = 0;
+             int       need = tape->pos;
+             int       len;
 
              /* Backup current buffer first position */
-             if (tape->pos < sizeof(tape->buffer)) {
-                 opos = tape->pos;
-                 tape->pos = 0;
-             } else {
-                 tape->pos -= sizeof(tape->buffer);
+             if (tape->pos >= sizeof(tape->buffer)) {
+                 need = sizeof(tape->buffer);
+                 npos = tape->pos - need;
              }
-             lseek(tape->fd, tape->pos, SEEK_SET);
-             tape->len_buff = read(tape->fd, tape->buffer, sizeof(tape->buffer));
-             if (opos == -1) {
-                 tape->pos_buff = tape->len_buff;
-             } else {
-                 tape->pos_buff = opos;
+             lseek(tape->fd, npos, SEEK_SET);
+             len = read(tape->fd, tape->buffer, sizeof(tape->buffer));
+             if (len < need) {
+                 /* Could not get all of the data before current position */
+                 tape->len_buff = 0;
+                 tape->pos_buff = 0;
+                 log_error("Tape read failed %s\n", tape->file_name);
+                 return TAPE_STATUS_FILE_ERROR;
              }
+             tape->pos = npos;
+             tape->len_buff = len;
+             tape->pos_buff = need;
          }
          tape->format &= ~TAPE_EOT;
      }
-- 
2.43.0


From 17e35fa7477e55ede99adc26f29d8bd4e72f5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 28/40] fix: data written to a disk was lost unless something
 was read from the same cylinder

---
 src/device/dasd.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d75a1d0..cbefcbe 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1263,6 +1263,7 @@ dasd_write_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
     da = &dasd->cbuf[dasd->tpos + dasd->tstart];
 
     dasd->count++;
+    dasd->dirty = 1;
     dasd->cpos++;
     switch(dasd->state) {
     case DK_POS_INDEX:             /* At Index Mark */
-- 
2.43.0


From c80e7a4fe0770dac2df3bb61b1430366148365e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:47 +0000
Subject: [PATCH 29/40] fix: a disk image of another drive type was not
 recognised, seeks then overran the cylinder buffer

---
 src/device/dasd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index cbefcbe..ab2e7f3 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -2011,9 +2011,9 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     for (i = 0; disk_type[i].name != 0; i++) {
          tsize = (disk_type[i].bpt | 0x1ff) + 1;
          dsize = sizeof(struct dasd_header) +
-                     (tsize * disk_type[i].heads * (disk_type[i].cyl + 1));
+                     (tsize * disk_type[i].heads * disk_type[i].cyl);
          if (hdr.devtype == disk_type[i].dev_type && hdr.tracksize == tsize &&
-             hdr.heads == disk_type[i].heads && dsize == isize) {
+             hdr.heads == disk_type[i].heads && isize >= 0 && (size_t)isize >= dsize) {
              if (dasd->type != i) {
                   /* Ask if we should change */
                   log_warn("Wrong type %s\n", disk_type[i].name);
@@ -2024,7 +2024,7 @@ dasd_attach(struct _dasd_t *dasd, char *file_name, int init)
     }
 
     /* Check if valid name */
-    if (disk_type[dasd->type].name == 0) {
+    if (disk_type[i].name == 0) {
          log_info("Invalid name %s\n", file_name);
          dasd_detach(dasd);
          return -1;
-- 
2.43.0


From 798eb9db61e63762ad6bee967774d5e2143f65f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:08 +0000
Subject: [PATCH 30/40] fix: selecting tape unit 6 or 7 indexed past the six
 drives of a 2415

---
 src/model2415/model2415.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 092621e..a1af0e1 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -953,6 +953,9 @@ model2415_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* Check if looking for this device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
                      if ((bus_out & 0xf8) == (unit->addr & 0xf8)) {
+                        /* There are only six drives */
+                        if ((bus_out & 0x7) >= 6)
+                            break;
                         *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                         /* Check if parity error on bus */
                         if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-- 
2.43.0


From 5e93aa03e73c6ff97795435deaab171de74b797f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:43 +0000
Subject: [PATCH 31/40] fix: a terminal character above 0x7f indexed past the
 ASCII translation table

---
 src/model1052/model1052.c | 2 +-
 src/model2030/model1050.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model1052/model1052.c b/src/model1052/model1052.c
index 4df89f3..abebac5 100644
--- a/src/model1052/model1052.c
+++ b/src/model1052/model1052.c
@@ -785,7 +785,7 @@ model1052_in(void *data, uint16_t *in_char)
    char   ch;
    if (ctx->in_flg && ctx->in_len > 0) {
        ch = ctx->key_buf[ctx->out_ptr++];
-       *in_char = ascii_to_ebcdic[(ch & 0xff)];
+       *in_char = ascii_to_ebcdic[(ch & 0x7f)];
        *in_char |= odd_parity[*in_char];
        log_console("Recieve %02x\n", ch);
        ctx->out_ptr &= 0xff;
diff --git a/src/model2030/model1050.c b/src/model2030/model1050.c
index be0440e..20d112c 100644
--- a/src/model2030/model1050.c
+++ b/src/model2030/model1050.c
@@ -144,7 +144,7 @@ model1050_in(uint16_t *in_char)
    char   ch;
    if (in_flg && in_len > 0) {
        ch = key_buf[out_ptr++];
-       *in_char = ascii_to_ebcdic[(ch & 0xff)];
+       *in_char = ascii_to_ebcdic[(ch & 0x7f)];
        *in_char |= odd_parity[*in_char];
        out_ptr &= 0xff;
        in_len--;
-- 
2.43.0


From ccd0839c797e75700c4a38e0d47c6f877f763edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 32/40] fix: bytes above 0x7f in a card deck indexed outside
 the ASCII code tables

---
 src/device/card.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 8799767..bf7f5a4 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -261,6 +261,8 @@ hol_to_ascii(uint16_t hol)
 uint16_t
 ascii_to_hol(uint8_t ascii)
 {
+    if (ascii >= 128)
+        return 0xf000;
     return ascii_to_hol_ebcdic[ascii];
 }
 
@@ -342,7 +344,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
     unsigned int          mode;
     uint16_t             temp;
     int                   i;
-    char                  c;
+    uint8_t               c;
     int                   col;
 
     memset(image, 0, 80 * sizeof(uint16_t));
@@ -440,7 +442,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                     break;
                 default:
                     log_card_c("%c", c);
-                    temp = ascii_to_hol_029[(int)c];
+                    temp = (c >= 128) ? 0xf000 : ascii_to_hol_029[c];
                     if (temp & 0xf000)
                         temp = 0xfff;
                     (*image)[col++] = temp & 0xfff;
-- 
2.43.0


From dc37a311904c9cf015113f7c158bfa81d69ed88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 33/40] fix: a ~raw card ran on into the next line and its
 codes indexed past the conversion tables

---
 src/device/card.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index bf7f5a4..2383a8e 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -247,14 +247,14 @@ ebcdic_to_hol(uint8_t ebcdic)
 uint16_t
 hol_to_ebcdic(uint16_t hol)
 {
-    return hol_to_ebcdic_table[hol];
+    return hol_to_ebcdic_table[hol & 0xfff];
 }
 
 /* Returns the ASCII character of a given Hollerith code */
 uint8_t
 hol_to_ascii(uint16_t hol)
 {
-    return hol_to_ascii_table[hol];
+    return hol_to_ascii_table[hol & 0xfff];
 }
 
 /* Return hollerith code for ascii character */
@@ -298,7 +298,7 @@ read_card(struct card_context *card_ctx, uint16_t (*image)[80])
 
     img = &(*card_ctx->images)[card_ctx->hopper_pos];
     for (i = 0; i < 80; i++) {
-        out[i] = hol_to_ebcdic_table[(int)(*img)[i]];
+        out[i] = hol_to_ebcdic_table[(*img)[i] & 0xfff];
         if (out[i] == 0x100)
             ok = 0;
     }
@@ -403,8 +403,6 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 if (buf->buffer[i] >= '0' && buf->buffer[i] <= '7') {
                     (*image)[col] = ((*image)[col] << 3) | (buf->buffer[i] - '0');
                     j++;
-                } else if (buf->buffer[i] == '\n' || buf->buffer[i] == '\r') {
-                   (*image)[0] |= 0xfff;
                 } else {
                     break;
                 }
@@ -525,7 +523,7 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
 
          /* Try to convert each column to ascii */
          for (i = 0; i < 80; i++) {
-             out[i] = hol_to_ascii_table[(*image)[i]];
+             out[i] = hol_to_ascii_table[(*image)[i] & 0xfff];
              if (out[i] == 0xff) {
                 ok = 0;
              }
@@ -539,7 +537,7 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
         /* Scan each column */
         log_card_s("punch text: [");
         for (i = 0; i < 80; i++, outp++) {
-            out[outp] = hol_to_ascii_table[(*image)[i]];
+            out[outp] = hol_to_ascii_table[(*image)[i] & 0xfff];
             if (out[outp] == 0xff) {
                out[outp] = '?';
             }
@@ -611,7 +609,7 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
         /* Fill buffer */
         for (i = 0; i < 80; i++, outp++) {
             uint16_t      col = (*image)[i];
-            out[outp] = 0xff & hol_to_ebcdic_table[col];
+            out[outp] = 0xff & hol_to_ebcdic_table[col & 0xfff];
         }
         break;
     }
-- 
2.43.0


From 71e1c923def0ad90e7e40da8caff24b37eb86f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 34/40] fix: a truncated binary card deck was read forever,
 text scanning ran past the data read

---
 src/device/card.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 2383a8e..b8b6594 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -451,12 +451,12 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card_c("-%d-", i);
 
         /* Scan to end of line, ignore anything after last column */
-        while (buf->buffer[i] != '\n' && buf->buffer[i] != '\r' && i < buf->len) {
+        while (i < buf->len && buf->buffer[i] != '\n' && buf->buffer[i] != '\r') {
             i++;
         }
-        if (buf->buffer[i] == '\r')
+        if (i < buf->len && buf->buffer[i] == '\r')
             i++;
-        if (buf->buffer[i] == '\n')
+        if (i < buf->len && buf->buffer[i] == '\n')
             i++;
         log_card("]\n");
         break;
@@ -466,6 +466,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card( "bin\n");
         if (buf->len < 160) {
             (*image)[0] = 0xfff;
+            buf->size = buf->len;
             return;
         }
         /* Move data to buffer */
@@ -591,7 +592,7 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
             out[outp++] = (col & 07) + '0';
         }
         out[outp++] = '\n';
-        log_card( "%s", &out[4]);
+        log_card( "%.*s", outp - 4, &out[4]);
         break;
 
 
-- 
2.43.0


From 3121b037bf54b3d2d9c26b16492855d2c525b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:20 +0000
Subject: [PATCH 35/40] fix: setting or reading the 2050 storage key of an
 address above 512K used host memory outside the key array

---
 src/model2050/cpu2050.c   | 16 ++++++++--------
 src/model2050/model2050.h |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..aa77914 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -2865,7 +2865,7 @@ cycle_2050()
     case 4:  /* D */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                   cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                   cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -2964,7 +2964,7 @@ cycle_2050()
     case 13:  /* SCAN->D */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                     cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -2996,14 +2996,14 @@ cycle_2050()
             /* Check storage protection */
             if (cpu_2050.io_mode) {
                 if (cpu_2050.bump_mem == 0 && cpu_2050.IO_KEY != 0 &&
-                     cpu_2050.IO_KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.IO_KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff]) {
                      cpu_2050.FLAGS_REG[cpu_2050.CH] |= CHAN_PROT;
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
                      break;
                 }
             } else {
                 if (cpu_2050.KEY != 0 &&
-                       cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                       cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff]) {
                     cpu_2050.NROAR = STPR;
                     break;
                 }
@@ -3071,7 +3071,7 @@ cycle_2050()
               /* D*BI under I/O mode */
             if (cpu_2050.io_mode) {
                 if (cpu_2050.bump_mem == 0 && cpu_2050.IO_KEY != 0 &&
-                     cpu_2050.IO_KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.IO_KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff]) {
                      cpu_2050.FLAGS_REG[cpu_2050.CH] |= CHAN_PROT;
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
                      break;
@@ -3089,7 +3089,7 @@ cycle_2050()
     case 29:  /* D,BS gate D to SDR based on BS */
             /* Check storage protection */
             if (cpu_2050.KEY != 0 &&
-                     cpu_2050.KEY != cpu_2050.MP[cpu_2050.SAR_REG >> 11]) {
+                     cpu_2050.KEY != cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff]) {
                 cpu_2050.NROAR = STPR;
                 break;
             }
@@ -3453,11 +3453,11 @@ cycle_2050()
             break;
 
     case 30: /* KEY->F */
-            cpu_2050.F_REG = cpu_2050.MP[cpu_2050.SAR_REG >> 11];
+            cpu_2050.F_REG = cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff];
             break;
 
     case 31: /* F->KEY */
-            cpu_2050.MP[cpu_2050.SAR_REG >> 11] = cpu_2050.F_REG;
+            cpu_2050.MP[(cpu_2050.SAR_REG >> 11) & 0x1fff] = cpu_2050.F_REG;
             break;
 
     case 32: /* 1->LSGNS */
diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index 694d69a..d5afe5e 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -98,7 +98,7 @@ extern struct CPU_2050 {
 int         count;
 uint32_t    LS[64];             /* Local storage */
 uint32_t    BUMP[4096];         /* Bump storage */
-uint8_t     MP[256];            /* Storage protection flags */
+uint8_t     MP[8192];           /* Storage protection flags, whole address range */
 uint8_t     mem_state;          /* Storage cycle state */
 
 
-- 
2.43.0


From 1a046290ff9d89ab07306f405a3adc2e157c924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:20 +0000
Subject: [PATCH 36/40] fix: 2030 selector channel address or count running
 past its 16 bits looked up parity outside the table

---
 src/model2030/cpu2030.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index bb07ba9..0e43dc1 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -794,7 +794,7 @@ cycle_2030()
            cpu_2030.GC[i] = cpu_2030.GU[i];
            cpu_2030.GD[i] = cpu_2030.GV[i];
            cpu_2030.GV[i] = cpu_2030.GHZ | odd_parity[cpu_2030.GHZ];
-           cpu_2030.GU[i] = cpu_2030.GHY | odd_parity[cpu_2030.GHY];
+           cpu_2030.GU[i] = (cpu_2030.GHY & 0xff) | odd_parity[cpu_2030.GHY & 0xff];
            /* If output and GR empty */
            if (sel_cnt_rdy_zero[i] == 0 && (cpu_2030.GG[i] & 1) == 1 && sel_gr_full[i] == 0) {
                cpu_2030.GR[i] = M[cpu_2030.MN_REG];
@@ -828,7 +828,7 @@ cycle_2030()
            cpu_2030.GC[i] = cpu_2030.GU[i];
            cpu_2030.GD[i] = cpu_2030.GV[i];
            cpu_2030.GV[i] = cpu_2030.GHZ| odd_parity[cpu_2030.GHZ];
-           cpu_2030.GU[i] = cpu_2030.GHY| odd_parity[cpu_2030.GHY];
+           cpu_2030.GU[i] = (cpu_2030.GHY & 0xff) | odd_parity[cpu_2030.GHY & 0xff];
            sel_write_cycle[i] = 0;
 
            /* Check if input */
-- 
2.43.0


From c39c5536e651a2e80c2bddc98d76cab6d86ced41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:20 +0000
Subject: [PATCH 37/40] fix: 2030 display and store from the switches put the
 low address byte in M instead of N

---
 src/model2030/cpu2030.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 0e43dc1..5f9f1d3 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -566,7 +566,7 @@ cycle_2030()
                        break;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG & 0xff];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG & 0xff];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) |
                                                  (cpu_2030.N_REG & 0xff);
@@ -631,7 +631,7 @@ cycle_2030()
                    cpu_2030.R_REG = cpu_2030.Alu_out;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) | (cpu_2030.N_REG & 0xff);
                    if (E_SW == 0x20) {
-- 
2.43.0


From 0f9e36bbdf67706cb02974684d34a00999a4dfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:20 +0000
Subject: [PATCH 38/40] fix: 2030 decimal correction of digits that are not
 decimal borrowed out of the byte

---
 src/model2030/cpu2030.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 5f9f1d3..e3de58d 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1887,6 +1887,7 @@ cycle_2030()
                   cpu_2030.Alu_out -= 0x6;
                if ((carries & BIT0) == 0)
                   cpu_2030.Alu_out -= 0x60;
+               cpu_2030.Alu_out &= 0xff;     /* Digits that are not decimal can borrow */
                if (sal->CC == 7) {
                    cpu_2030.ASCII = (cpu_2030.R_REG & BIT4) != 0;
                    suppr_half_trap_lch = (cpu_2030.R_REG & BIT5) == 0;
-- 
2.43.0


From fb26640a28da7959b0ad8e556f69d0d5304ab9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:32 +0000
Subject: [PATCH 39/40] fix: 2030 storing Q from the switches kept the parity
 bit and then looked up parity outside the table

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index e3de58d..1101bae 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -623,7 +623,7 @@ cycle_2030()
            cpu_2030.Alu_out = cpu_2030.Bbus;
            cpu_2030.Abus = cpu_2030.Bbus;
            switch(E_SW) {
-           case 0x10:  cpu_2030.Q_REG = cpu_2030.Alu_out; /* Q */  break;
+           case 0x10:  cpu_2030.Q_REG = cpu_2030.Alu_out & 0xff; /* Q */  break;
            case 0x20:
            case 0x21:
                    if (cpu_2030.allow_write)
-- 
2.43.0


From 3fdea2efb27eb76b2c653b2a139825308e9f74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 40/40] fix: 2050 taking channel flags into the multiplexor
 buffer kept more than a byte and could look up parity outside the table

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index aa77914..5f5a571 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3798,7 +3798,7 @@ cycle_2050()
                     cpu_2050.BFR2 |= 0x7;
                 }
                 if (cpu_2050.first_cycle && cpu_2050.ROUTINE[cpu_2050.CH] == 0xbc) {  /* RTB7 */
-                    cpu_2050.BFR2 = cpu_2050.FLAGS_REG[cpu_2050.CH];
+                    cpu_2050.BFR2 = cpu_2050.FLAGS_REG[cpu_2050.CH] & 0xff;
                 }
                 break;
         case 6: /* BUSI>BFR1.
-- 
2.43.0

