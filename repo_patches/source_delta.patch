From 8241d613325a812e45d7b43e49ae231625d98152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 01/79] fix: cancel_event left cancelled event linked when not
 at head of list

---
 src/event.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index 6d186ba..fdd455f 100644
--- a/src/event.c
+++ b/src/event.c
@@ -122,7 +122,7 @@ cancel_event(struct _device *dev, _callback func)
            }
            /* Point previous event next to next */
            if (ptr_event->prev != NULL) {
-               ptr_event->next = ptr_event->next;
+               ptr_event->prev->next = ptr_event->next;
            } else {
                /* No previous, at head of list */
                event_head = ptr_event->next;
-- 
2.43.0


From 5c4461728f78a5ba7f2cc613cf62a8fb5a047228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:42 +0000
Subject: [PATCH 02/79] fix: event callback could not cancel events, list
 changed under advance

---
 src/event.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index fdd455f..e782bf2 100644
--- a/src/event.c
+++ b/src/event.c
@@ -150,15 +150,16 @@ advance()
     log_event("Advance event %d\n", ptr_event->time);
     ptr_event->time--;
     while (ptr_event != NULL && ptr_event->time == 0) {
-         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         /* Unlink event before running it, callback can change the list */
          event_head = ptr_event->next;
-         free(ptr_event);
-         ptr_event = event_head;
-         if (ptr_event != NULL) {
-             ptr_event->prev = NULL;
+         if (event_head != NULL) {
+             event_head->prev = NULL;
          } else {
              event_tail = NULL;
          }
+         (*ptr_event->func)(ptr_event->dev, ptr_event->arg, ptr_event->iarg);
+         free(ptr_event);
+         ptr_event = event_head;
     }
 }
 
-- 
2.43.0


From e244089a834a14fb76a4c68aaf5dd55ecd3b7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 03/79] fix: save_deck left file name pointing at freed memory
 when file can't be opened

---
 src/device/card.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 036d5cd..f65cc1c 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -826,6 +826,7 @@ save_deck(struct card_context *card_ctx, char *file_name)
         fclose(card_ctx->file);
     }
     free(card_ctx->file_name);
+    card_ctx->file_name = NULL;
 
 	card_ctx->file = fopen(file_name, "wb");
 	if (card_ctx->file == NULL)
@@ -833,6 +834,7 @@ save_deck(struct card_context *card_ctx, char *file_name)
 
 	if ((card_ctx->file_name = (char*)malloc(strlen(file_name)+1)) == NULL) {
 		fclose(card_ctx->file);
+		card_ctx->file = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From 39a70d38767a76a81fb7378746e9affd068bd63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 04/79] fix: card text above 0x7f read outside of translation
 table

---
 src/device/card.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/device/card.c b/src/device/card.c
index f65cc1c..87ff542 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -261,6 +261,8 @@ hol_to_ascii(uint16_t hol)
 uint16_t
 ascii_to_hol(uint8_t ascii)
 {
+    if (ascii > 0177)
+        return 0xf000;
     return ascii_to_hol_ebcdic[ascii];
 }
 
@@ -440,7 +442,8 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                     break;
                 default:
                     log_card_c("%c", c);
-                    temp = ascii_to_hol_029[(int)c];
+                    temp = (buf->buffer[i] > 0177) ? 0xf000 :
+                                   ascii_to_hol_029[(int)c];
                     if (temp & 0xf000)
                         temp = 0xfff;
                     (*image)[col++] = temp & 0xfff;
-- 
2.43.0


From dcc0f9e1099a423e443ee835f44dccdce836579e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 05/79] fix: card reader lost card following end of file card

---
 src/device/card.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/device/card.c b/src/device/card.c
index 87ff542..37e5448 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -382,6 +382,8 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 case '\0':
                 case '\r':
                     col = 80;
+                    i--;                /* Leave end of line */
+                    break;
                 case ' ':
                     break;              /* Ignore these */
                 case '\t':
-- 
2.43.0


From dfc5e5e0c360b6bf9389f140d538f08fa48c8f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 06/79] fix: octal card with only column one punched was saved
 as end of record card

---
 src/device/card.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 37e5448..82dff71 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -564,21 +564,25 @@ _punch_card(struct card_context *card_ctx, uint16_t (*image)[80])
         }
         /* Check if special card */
         if (i == 0) {
-            out[outp++] = 'e';
-            out[outp++] = 'o';
             if ((*image)[0] == 07) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'r';
                out[outp++] = '\n';
                log_card( "eor\n");
                break;
             }
             if ((*image)[0] == 015) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'f';
                out[outp++] = '\n';
                log_card( "eof\n");
                break;
             }
             if ((*image)[0] == 017) {
+               out[outp++] = 'e';
+               out[outp++] = 'o';
                out[outp++] = 'i';
                out[outp++] = '\n';
                log_card( "eoi\n");
-- 
2.43.0


From 39ffaa40960112029521e29e24c80694813ea644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 07/79] fix: short binary card deck never finished loading

---
 src/device/card.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/card.c b/src/device/card.c
index 82dff71..703ad30 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -471,6 +471,7 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
         log_card( "bin\n");
         if (buf->len < 160) {
             (*image)[0] = 0xfff;
+            buf->size = buf->len;
             return;
         }
         /* Move data to buffer */
-- 
2.43.0


From 3088909a1cfff12e8a6b72795ca2ed4504ddc960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 08/79] fix: short raw card read the following line as part of
 card

---
 src/device/card.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/device/card.c b/src/device/card.c
index 703ad30..1c510b5 100644
--- a/src/device/card.c
+++ b/src/device/card.c
@@ -405,8 +405,6 @@ _parse_card(struct card_context *card_ctx, struct _card_buffer *buf, uint16_t (*
                 if (buf->buffer[i] >= '0' && buf->buffer[i] <= '7') {
                     (*image)[col] = ((*image)[col] << 3) | (buf->buffer[i] - '0');
                     j++;
-                } else if (buf->buffer[i] == '\n' || buf->buffer[i] == '\r') {
-                   (*image)[0] |= 0xfff;
                 } else {
                     break;
                 }
-- 
2.43.0


From 475d4b18afcd66dcfc01195c341fb9bf9ad0e608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:34 +0000
Subject: [PATCH 09/79] fix: reading last record of P7B tape never ended

---
 src/device/tape.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index e51db5a..ebddd03 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -770,6 +770,11 @@ tape_read_frame(struct _tape_buffer *tape, uint8_t *data)
                        if (tape->lrecl == 2)
                            return TAPE_STATUS_EOB;
                        r = tape_read_byte(tape, data);
+                       /* No IRG after last record, end of tape also ends it. */
+                       if (r != TAPE_STATUS_OK) {
+                           tape->lrecl = 2;
+                           return (r == TAPE_STATUS_EOT) ? TAPE_STATUS_EOB : r;
+                       }
                        if (tape->lrecl == 1 && (*data & IRG_MASK) != 0) {
                        r = tape_readbk_byte(tape, data);
                            tape->lrecl = 2;
-- 
2.43.0


From b92c8a4ff42bd2bb97eae7098b0eeba602de800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:16 +0000
Subject: [PATCH 10/79] fix: tape could not be read again after rewind from end
 of tape

---
 src/device/tape.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index ebddd03..4a6186b 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -998,6 +998,7 @@ tape_start_rewind(struct _tape_buffer *tape)
     tape->pos = 0;
     tape->pos_buff = 0;
     tape->len_buff = 0;
+    tape->format &= ~TAPE_EOT;
     return TAPE_STATUS_OK;
 }
 
-- 
2.43.0


From 076db772b6a5687b303dea99106934a1d42714e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 11/79] fix: write after reading up to end of tape buffer
 overwrote start of buffer

---
 src/device/tape.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/device/tape.c b/src/device/tape.c
index 4a6186b..130284d 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -287,9 +287,10 @@ tape_write_byte(struct _tape_buffer *tape, uint8_t data)
                  log_error("Tape write failed %s %d\n", tape->file_name, r);
                  return TAPE_STATUS_FILE_ERROR;
              }
-             tape->pos += tape->len_buff;
              tape->dirty = 0;
          }
+         /* Move past buffer, even if there was nothing to flush */
+         tape->pos += tape->len_buff;
          tape->len_buff = 0;
          tape->pos_buff = 0;
      }
-- 
2.43.0


From 221dc43ea8e9d7e8d4319bd7eee889f1812d7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 12/79] fix: P7B record written over longer record included
 rest of old record

---
 src/device/tape.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/device/tape.c b/src/device/tape.c
index 130284d..cf5440c 100644
--- a/src/device/tape.c
+++ b/src/device/tape.c
@@ -952,6 +952,13 @@ tape_finish_rec(struct _tape_buffer *tape)
                    }
                    switch ((tape->format >> FUNC_V) & FUNC_M) {
                    case FUNC_WRITE:
+                        /* If over writing middle of longer record, start
+                           a new record so rest is not part of this one */
+                        if (tape_peek_byte(tape, &lrecl[0]) == TAPE_STATUS_OK &&
+                             (lrecl[0] & IRG_MASK) == 0) {
+                            tape->buffer[tape->pos_buff] |= IRG_MASK;
+                            tape->dirty = 1;
+                        }
                         break;
                    case FUNC_MARK:
                    case FUNC_REW:
-- 
2.43.0


From 8f56f9f69d95be794687997bae82f8671be1151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 13/79] fix: 2050 EXECUTE of instruction with base field of
 zero used register 0

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d92a6af..19ed6d8 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3301,7 +3301,7 @@ cycle_2050()
             s_update &= ~(BIT0|BIT1);     /* <-- */
             if ((cpu_2050.aob_latch & 0x000f0000) == 0)
                 s_update |= BIT0;     /* <-- */
-            if ((cpu_2050.aob_latch & 0xf0000000) == 0)
+            if ((cpu_2050.aob_latch & 0x0000f000) == 0)
                 s_update |= BIT1;     /* <-- */
             if ((cpu_2050.aob_latch >> 28) <= 3) {
                 cpu_2050.SYLS1 = 1;
-- 
2.43.0


From ce8cf5ef855d580d205fa02c97e167b77fdbc06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:43 +0000
Subject: [PATCH 14/79] fix: 2050 UNPACK in ASCII mode changed digits C and D
 of result

---
 src/model2050/cpu2050.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 19ed6d8..07bf7ce 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4035,12 +4035,12 @@ cycle_2050()
                 break;
         case 12: /* W->MMB(E?)  */
                 if ((cpu_2050.AMWP & 0x8) != 0) {
-                    if ((cpu_2050.w_bus & 0xf) == 0xc)
-                        cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xa;
-                    if ((cpu_2050.w_bus & 0xf) == 0xd)
-                        cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xb;
                     if ((cpu_2050.w_bus & 0xf0) == 0xf0)
                         cpu_2050.w_bus = (cpu_2050.w_bus & 0x0f) | 0x50;
+                    else if ((cpu_2050.w_bus & 0xf) == 0xc)
+                        cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xa;
+                    else if ((cpu_2050.w_bus & 0xf) == 0xd)
+                        cpu_2050.w_bus = (cpu_2050.w_bus & 0xf0) | 0xb;
                 }
                 cpu_2050.M_REG &= ~(0xff << (8 * (3-cpu_2050.MB_REG)));
                 cpu_2050.M_REG |= (cpu_2050.w_bus << (8 * (3-cpu_2050.MB_REG)));
-- 
2.43.0


From d31c2af64ec13d36132d16328dba3af0b2551b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 15/79] fix: 2050 sign of floating point add, subtract and
 compare result

---
 src/model2050/cpu2050.c | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 07bf7ce..3604490 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3421,22 +3421,14 @@ cycle_2050()
                S3 = comp sign when S0 and S1 zero (Multiply or divide).
             */
             /* Stat 4 turned on:
-                   If S0 or S1 and right adder input bit 0 is 1, and carry out bit 1
+                   If S0 or S1 and right adder input bit 0 is 1, and no carry out bit 1
                    If S0 or S1 and carry out bit 1 and either adder left input 0 or S1.
                       But not both. (Add type result minus)
                    If S0 and S1 == 0 and left adder input bit 0 != right adder input
                      bit 0 */
-            if ((s_update & (BIT0|BIT1)) != 0 && t1 && t) {
-                s_update |= BIT4;     /* <-- */
-            }
-
-            if (((s_update & (BIT0)) != 0 && t1 == 0 && t2 == 0 && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 == 0 && t2 != 0 && !t && carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 == 0 && t2 != 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0|BIT1)) != 0 && t1 != 0 && t2 == 0 && !t) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 == 0 && t && carry_out) ||     /* <-- */
-                ((s_update & (BIT0)) != 0 && t1 != 0 && t2 != 0 && !carry_out) ||     /* <-- */
-                ((s_update & (BIT1)) != 0 && t1 != 0 && t2 != 0) ||     /* <-- */
+            t = (carries & CPOS1) != 0;
+            if (((s_update & (BIT0|BIT1)) != 0 && !t && t1) ||     /* <-- */
+                ((s_update & (BIT0|BIT1)) != 0 && t && ((s_update & BIT1) != 0) == t2) ||     /* <-- */
                 ((s_update & (BIT0|BIT1|BIT3)) == 0 && t1 != t2) ||     /* <-- */
                 ((s_update & (BIT0|BIT1|BIT3)) == BIT3 && t1 == t2))     /* <-- */
                 s_update |= BIT4;     /* <-- */
-- 
2.43.0


From 7f986751f3d8b0023b48cacc3a2988f57198459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 16/79] fix: 2050 HDR result sign inverted on exponent
 underflow

---
 src/model2050/cpu2050.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 3604490..013bed1 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3418,19 +3418,17 @@ cycle_2050()
             /* S0 = add
                S1 = sub
                S2 = unorm
-               S3 = comp sign when S0 and S1 zero (Multiply or divide).
             */
             /* Stat 4 turned on:
                    If S0 or S1 and right adder input bit 0 is 1, and no carry out bit 1
                    If S0 or S1 and carry out bit 1 and either adder left input 0 or S1.
                       But not both. (Add type result minus)
-                   If S0 and S1 == 0 and left adder input bit 0 != right adder input
-                     bit 0 */
+                   If S0 and S1 == 0 and left adder input bit 0 (before it is
+                     complemented) != right adder input bit 0 */
             t = (carries & CPOS1) != 0;
             if (((s_update & (BIT0|BIT1)) != 0 && !t && t1) ||     /* <-- */
                 ((s_update & (BIT0|BIT1)) != 0 && t && ((s_update & BIT1) != 0) == t2) ||     /* <-- */
-                ((s_update & (BIT0|BIT1|BIT3)) == 0 && t1 != t2) ||     /* <-- */
-                ((s_update & (BIT0|BIT1|BIT3)) == BIT3 && t1 == t2))     /* <-- */
+                ((s_update & (BIT0|BIT1)) == 0 && t1 != (t2 ^ (sal->tc == 0))))     /* <-- */
                 s_update |= BIT4;     /* <-- */
             break;
 
-- 
2.43.0


From b77f4093f916da6f1ab739046d7bf0b75f517312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 17/79] fix: 2050 AWR and SWR with guard digit gave zero result

---
 src/model2050/ros.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/ros.txt b/src/model2050/ros.txt
index b9449c2..d5b5894 100644
--- a/src/model2050/ros.txt
+++ b/src/model2050/ros.txt
@@ -53,7 +53,7 @@ add   binary address   sheet  box  mode  binary bit pattern
 0020 0 0000 0010 0000  qv104  j1   io    0 000 00 101001 0100 100 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 000001 00001 0  000000
 0021 0 0000 0010 0001  qv540  j3   io    1 100 10 000000 1010 100 00000 0  0  00 111 1 000 00000 000 0  101 00 011 11 11 1 1000 000 1  000 000 0 000001 00001 0  000000
                                          p lu  mv zp     zf   zn  tr    zr ws  sf  p iv  al    wm   up md lb mb dg  ul ur p ce   lx  tc ry  ad   ab     bb    ux ss       92--97
-0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000001 00001 0  000000 00 0000000
+0022 0 0000 0010 0010  qg420  n4   -     0 000 00 100111 0101 100 00000 0  100 111 0 000 00000 0000 10 0  0  0  000 01 01 1 0000 000 1  000 0001 000010 00001 0  000000 00 0000000
                                          p lu  mv zp     zf   zn  tr    zr cs sa sf  p ct  al    wl  hc ms  cg mg  ul ur p ce   lx  tc ry  cl    ab     bb    ux ss       92--97
 0023 0 0000 0010 0011  qv110  g2   io    0 001 00 000000 1111 100 00000 0  0  00 111 0 011 00000 000 0  001 11 011 00 00 1 0000 001 1  000 000 0 000000 00000 0  000000
 0024 0 0000 0010 0100  qv105  j1   io    1 000 00 101000 0100 111 00000 0  1  01 101 1 001 00000 000 0  000 00 001 01 01 0 0000 000 1  000 000 0 011100 11010 0  000000
-- 
2.43.0


From 6502bd637ffe16841af53ff0d47775eb27e4af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 18/79] fix: end storage cycle of a protected store on the 2030

A store that is suppressed by storage protection left the storage cycle open,
the next cycle then wrote its data to a wrong location: general registers,
other storage and storage keys were changed, and the trap was taken late so that the
old PSW did not point behind the instruction.
---
 src/model2030/cpu2030.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 06e3cfa..f0fdb0f 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -163,6 +163,7 @@ static int        first_mach_chk_req;
 static int        suppr_a_reg_chk;
 static int        mach_chk_pulse;
 static int        stg_prot_req;
+static int        stg_prot_regen;       /* R holds data read, not data to store */
 static int        inh_stg_prot;
 static int        mem_wrap_req;
 static int        i_wrap_cpu;
@@ -1042,6 +1043,7 @@ cycle_2030()
                protect_loc_cpu_or_mpx = 0;
                mem_prot = 0;
                stg_prot_req = 0;
+               stg_prot_regen = (sal->CM != 2);
                /* Check validity of M and N registers */
                if (((odd_parity[cpu_2030.M_REG & 0xff] ^ cpu_2030.M_REG) & 0x100) != 0 ||
                      ((odd_parity[cpu_2030.N_REG & 0xff] ^ cpu_2030.N_REG) & 0x100) != 0) {
@@ -1103,8 +1105,17 @@ cycle_2030()
            if (cpu_2030.dead_cycle == 0) {
                switch (sal->CM) {
                case 2:       /* Store */
-                       if (stg_prot_req)
+                       if (stg_prot_req) {
+                           /* Put back what was there, and end storage cycle */
+                           if (cpu_2030.allow_write && stg_prot_regen &&
+                                       mem_prot == 0 && cpu_2030.store == MAIN) {
+                               M[cpu_2030.MN_REG] = cpu_2030.R_REG;
+                           }
+                           cpu_2030.allow_write = 0;
+                           read_call = 0;
+                           inh_stg_prot = 0;
                            break;
+                       }
                        /* Fall through */
                case 0:       /* Write */
                       /* Do write to memory from this request */
-- 
2.43.0


From 64b5012dc9f8d43ec9b839d83eb86438a088c4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:24 +0000
Subject: [PATCH 19/79] fix: 2030 interval timer was never updated

A timer tick only set timer_update, nothing made the microcode take the
interrupt branch that looks at it.
---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index f0fdb0f..d937bab 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -677,6 +677,9 @@ cycle_2030()
            timer_update = 1;
        }
    }
+   if (timer_update) {
+       interrupt = 1;
+   }
    if ((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) {
        interrupt = 1;
    }
-- 
2.43.0


From 8ba53d185e9cec6f51a923d887c139b5c20d9b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 20/79] fix: STOP switch did nothing on the 2030 after first
 START

---
 src/model2030/cpu2030.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index d937bab..47a7568 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -665,6 +665,7 @@ cycle_2030()
 
    if (set_ic_allowed || start_sw_rst) {
        process_stop = 0;
+       start_sw_rst = 0;
    }
 
    interrupt = 0;
@@ -2831,6 +2832,7 @@ chan_scan:
                 priority_stack_reg |= BIT3;
             if (stg_prot_req)
                 priority_stack_reg |= BIT4;
+            stop_req = !(process_stop & (!interrupt) & cpu_2030.end_of_e_cycle);
             if (!stop_req)
                 priority_stack_reg |= BIT5;
             /* Select channel request */
-- 
2.43.0


From 7dc6a4fbd077d9704eb4759d362d4f9b71ae80f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 21/79] fix: 2030 instruction step and single cycle settings of
 rate switch were exchanged

---
 src/model2030/cpu2030.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 47a7568..6a33a6e 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -275,7 +275,7 @@ cycle_2030()
                    even_parity | alu_chk;
 
    /* If SAR_DELAY_SW and Match or Rate Instruction step */
-   if (((MATCH_SW == 1) && cpu_2030.match) || (RATE_SW == 2)) {
+   if (((MATCH_SW == 1) && cpu_2030.match) || (RATE_SW == 0)) {
       process_stop = 1;
    }
 
@@ -2400,12 +2400,12 @@ cycle_2030()
               if (any_priority_lch)
                   priority_lch = 1;
            }
-           if (RATE_SW == 0) {
+           if (RATE_SW == 2) {
               hard_stop = 1;
               if (any_priority_lch)
                   priority_lch = 1;
            }
-           if  (RATE_SW == 2 && any_priority_pulse && PROC_SW == 2) {
+           if  (RATE_SW == 0 && any_priority_pulse && PROC_SW == 2) {
               hard_stop = 1;
               if (any_priority_lch)
                   priority_lch = 1;
-- 
2.43.0


From e53356a152937656fd0425b18b9da0af81419af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 22/79] fix: 2030 storage display and store used wrong address
 and parity

---
 src/model2030/cpu2030.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 6a33a6e..9864b1b 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -567,17 +567,17 @@ cycle_2030()
                        break;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG & 0xff];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG & 0xff];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) |
                                                  (cpu_2030.N_REG & 0xff);
                    if (E_SW == 0x20) {
-                       cpu_2030.R_REG = M[cpu_2030.MN_REG] ^ 0x100;
+                       cpu_2030.R_REG = M[cpu_2030.MN_REG];
                        cpu_2030.store = MAIN;
                    }
                    if (E_SW == 0x21) {
                        cpu_2030.R_REG = cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) |
-                                        (cpu_2030.N_REG & 0xff)] ^ 0x100;
+                                        (cpu_2030.N_REG & 0xff)];
                        cpu_2030.store = LOCAL;
                    }
                    break;
@@ -632,15 +632,15 @@ cycle_2030()
                    cpu_2030.R_REG = cpu_2030.Alu_out;
                    cpu_2030.M_REG = (A_SW << 4) | (B_SW);
                    cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG];
-                   cpu_2030.M_REG = (C_SW << 4) | (D_SW);
+                   cpu_2030.N_REG = (C_SW << 4) | (D_SW);
                    cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG];
                    cpu_2030.MN_REG = ((cpu_2030.M_REG & 0xff) << 8) | (cpu_2030.N_REG & 0xff);
                    if (E_SW == 0x20) {
-                       M[cpu_2030.MN_REG] = cpu_2030.R_REG ^ 0x100;
+                       M[cpu_2030.MN_REG] = cpu_2030.R_REG;
                        cpu_2030.store = MAIN;
                    }
                    if (E_SW == 0x21) {
-                       cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) | (cpu_2030.N_REG & 0xff)] = cpu_2030.R_REG ^ 0x100;
+                       cpu_2030.LS[((cpu_2030.M_REG << 5) & 0x700) | (cpu_2030.N_REG & 0xff)] = cpu_2030.R_REG;
                        cpu_2030.store = LOCAL;
                    }
                    cpu_2030.Abus = cpu_2030.R_REG;
-- 
2.43.0


From 1997dd160cb7d92a986b597f81386fff7a560164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:25 +0000
Subject: [PATCH 23/79] fix: 2030 DISPLAY button started the processor

---
 src/model2030/panel2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/panel2030.c b/src/model2030/panel2030.c
index 44eec2f..282c986 100644
--- a/src/model2030/panel2030.c
+++ b/src/model2030/panel2030.c
@@ -517,7 +517,7 @@ setup_fp2030(char *title)
     add_button(cpu_panel, s, pos + (hx * 6), hx * 2, wx * 10, "LAMP", "TEST",
                &LAMP_TEST, font10, &c_white, &c_blue, 1);
     add_button(cpu_panel, s, pos + (hx * 8) + (hx/2), hx * 2, wx * 10, "DISPLAY", NULL,
-               &START, font10, &c_white, &c_blue, 0);
+               &DISPLAY, font10, &c_white, &c_blue, 0);
 
     s += wx * 16;
     p = pos + (2 * hx) + (h1 * 4) + (h1/2);
-- 
2.43.0


From 6bb3dce821ee5b34fc68171cdefbbfc4cf022b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 24/79] fix: 2050 took interruptions while stopped

The stop loop tests for interruptions with the same branch as the wait
loop; a timer tick or the interrupt key changed the PSW and storage and
started the processor after STOP.
---
 src/model2050/cpu2050.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 013bed1..17b5728 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -1331,6 +1331,8 @@ cycle_2050()
             break;
 
     case 58: /* EXT,CHIRPT  */
+            if (stop_mode)        /* No interruptions while stopped */
+               break;
             if (timer_update) {   /* Timer update, give it priority */
                b_bit = 1;
                a_bit = 1;
-- 
2.43.0


From 1cb61e2c943bb94462ce9a60982e9bd38b1256a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 25/79] fix: STOP lost instruction address or interruption on
 the 2030

STOP after CLC and other instructions that keep I and J in working
storage left to the stop loop before they were restored. The stopped
wait loop was left when an interruption was taken after START, at 0AF,
and the machine hung.
---
 src/model2030/cpu2030.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 9864b1b..9095bca 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -310,8 +310,6 @@ cycle_2030()
       e_cy_stop_sample = 1;
    }
 
-   proc_stop_loop_active = 0;
-
    /* Handle front panel switches */
    if (CHECK_RST) {
       suppr_half_trap_lch = 0;
@@ -697,6 +695,7 @@ cycle_2030()
 
    clock_rst = hard_stop | ((sal->CA != 0xE) & cf_stop);
    clock_stop = (proc_stop_loop_active & (!sel_ros_req));
+   proc_stop_loop_active = 0;
    if (clock_stop || clock_rst) {
       cpu_2030.clock_start_lch = 0;
       e_cy_stop_sample = 0;
@@ -1375,7 +1374,9 @@ cycle_2030()
                       nextWX |= 0x1;
                    break;
            case 15: /* INTR */
-                   cpu_2030.end_of_e_cycle = 1;
+                   /* I and J still to be restored if going to 102 */
+                   if (sal->CH != 8 || (nextWX & 0x2) == 0)
+                       cpu_2030.end_of_e_cycle = 1;
                    if (interrupt) {
                       nextWX |= 0x1;
                    }
@@ -2832,7 +2833,8 @@ chan_scan:
                 priority_stack_reg |= BIT3;
             if (stg_prot_req)
                 priority_stack_reg |= BIT4;
-            stop_req = !(process_stop & (!interrupt) & cpu_2030.end_of_e_cycle);
+            /* Once stopped wait loop must not be left until START */
+            stop_req = !(process_stop & (!interrupt) & cpu_2030.end_of_e_cycle & !(cpu_2030.wait & cf_stop));
             if (!stop_req)
                 priority_stack_reg |= BIT5;
             /* Select channel request */
-- 
2.43.0


From c5017dcd4230d51d9d3480eddb4a22246b9f3e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 26/79] fix: 2030 selector channel 2 used state of the other
 channel

Backward reads, poll control after halt I/O and the interrupt test looked at
the channel the CPU has selected, or at channel 1, instead of the channel that
is being served.
---
 src/model2030/cpu2030.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 9095bca..9a7711f 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -812,7 +812,7 @@ cycle_2030()
            sel_read_cycle[i] = 0;
        } else if (sel_write_cycle[i]) {
            /* If moving backwards, address - 1 */
-           if (cpu_2030.GG[cpu_2030.ch_sel] == 0x10c) {
+           if (cpu_2030.GG[i] == 0x10c) {
                cpu_2030.GHZ = (cpu_2030.GD[i] - 1) & 0xff;
                cpu_2030.GHY = (cpu_2030.GC[i] & 0xff);
                if (cpu_2030.GHZ == 0xff)
@@ -1414,7 +1414,7 @@ cycle_2030()
            case 0x1A: /* Select interrupt SEL1 -> 0,x SEL2 -> x,0, timer -> 0,0 */
                        if ((cpu_2030.MASK & BIT1) && (sel_intrp_lch[0] || (cpu_2030.GF[0] & BIT4) != 0))
                           nextWX &= 0xffe;
-                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[0] || (cpu_2030.GF[1] & BIT4) != 0))
+                       else if ((cpu_2030.MASK & BIT2) && (sel_intrp_lch[1] || (cpu_2030.GF[1] & BIT4) != 0))
                           nextWX &= 0xffd;
                        else if (((cpu_2030.MASK & BIT7) && cpu_2030.F_REG != 0) || timer_update)
                           nextWX &= 0xffc;
@@ -2724,7 +2724,7 @@ chan_scan:
 
              /* Set poll control if halt I/O and not chaining requests */
              if (sel_halt_io[i] && sel_chain_req[i] == 0 && sel_intrp_lch[i] == 0) {
-                 sel_poll_ctrl[cpu_2030.ch_sel] = 1;
+                 sel_poll_ctrl[i] = 1;
                  cpu_2030.SEL_TAGS[i] &= ~(CHAN_ADR_OUT);  /* Drop address out */
              }
 
-- 
2.43.0


From 7ba38ceec0e2de2b5a268b52862a17ea690254d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 27/79] fix: 2030 selector channel ended data chained
 operations early

When the count reached zero with the chain data flag set the channel told the
device to stop instead of waiting for the next CCW.
---
 src/model2030/cpu2030.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 9a7711f..b737b53 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -2584,6 +2584,7 @@ chan_scan:
                  }
 
                  if (sel_cnt_rdy_zero[i] != 0 && sel_gr_full[i] == 0 &&
+                     (cpu_2030.GF[i] & BIT0) == 0 &&
                      (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) == 0 &&
                       sel_chan_busy[i]) {
                      log_selchn("Read end\n");
@@ -2604,6 +2605,7 @@ chan_scan:
 
                  /* Check for stop condition */
                  if (sel_cnt_rdy_zero[i] != 0 && sel_gr_full[i] == 0 &&
+                     (cpu_2030.GF[i] & BIT0) == 0 &&
                      (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) == 0 &&
                       sel_chan_busy[i]) {
                      cpu_2030.SEL_TAGS[i] |= CHAN_CMD_OUT;
-- 
2.43.0


From fbabe42d08fcfb25e0ebfc4188cc3b8ff900ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 28/79] fix: 2030 selector channel incorrect length and command
 chaining

A prefetched byte was not counted as left over on output, suppress length was
honored with data chaining, and command chaining went on after an incorrect
length or error status and started the next operation with the count and byte
left over from the last one.
---
 src/model2030/cpu2030.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index b737b53..c4068b1 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -243,6 +243,18 @@ static char  dis_buffer[1024];
 
 DEV_LIST_STRUCT(2030, CPU_TYPE, CHAR_OPT|NUM_MOD);
 
+/*
+ * Check if there is count left on selector channel i. On output the last
+ * byte taken from storage may still be in the buffer register.
+ */
+static int
+sel_count_left(int i)
+{
+   if ((cpu_2030.GG[i] & 1) != 0)
+       return sel_cnt_rdy_not_zero[i] || sel_gr_full[i];
+   return sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0;
+}
+
 void
 cycle_2030()
 {
@@ -2689,8 +2701,7 @@ chan_scan:
              } else if (((cpu_2030.SEL_TI[i] & (CHAN_STA_IN|CHAN_SRV_OUT)) == (CHAN_STA_IN)) &&
                    sel_poll_ctrl[i] && (cpu_2030.GF[i] & (BIT0|BIT1)) == (0)) {
                  /* Check if length incomplete */
-                 if (sel_cnt_rdy_not_zero[i] &&
-                      sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                 if (sel_count_left(i) && (cpu_2030.GF[i] & (BIT0|BIT2)) != BIT2) {
                       cpu_2030.GE[i] |= BIT1;
                  }
 
@@ -2755,18 +2766,29 @@ chan_scan:
                  cpu_2030.SEL_TI[i] == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_OPR_IN|CHAN_STA_IN|CHAN_SUP_OUT))) {
                   /* Command chaining */
                    if ((cpu_2030.GF[i] & (BIT1)) != (0)) {
-                        if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
+                        /* Check if length incomplete */
+                        if (sel_count_left(i) && (cpu_2030.GF[i] & (BIT0|BIT2)) != BIT2) {
+                             cpu_2030.GE[i] |= BIT1;
+                        }
+                        if ((cpu_2030.GI[i] & (BIT0|BIT2|BIT3|BIT6|BIT7)) != 0 ||
+                            (cpu_2030.GE[i] & (BIT1|BIT2|BIT3|BIT4|BIT5|BIT6)) != 0) {
+                             sel_ros_req |= 1 << i;
+                             log_selchn("Status error interrupt\n");
+                        } else if ((cpu_2030.GI[i] & SNS_DEVEND) != 0) {
+                             /* Forget unused count and prefetched byte */
+                             sel_cnt_rdy_not_zero[i] = 0;
+                             sel_gr_full[i] = 0;
                              sel_chain_req[i] = 1;
                              sel_ros_req |= 1 << i;
                              log_selchn("Status chain interrupt\n");
                         } else {
-                             cpu_2030.SEL_TAGS[cpu_2030.ch_sel] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
+                             cpu_2030.SEL_TAGS[i] |= (CHAN_SRV_OUT|CHAN_SUP_OUT);
                              log_selchn("Status chain hold\n");
                         }
                    }
                    if ((cpu_2030.GF[i] & (BIT1)) == (0)) {
                         /* Check if length incomplete */
-                        if (sel_cnt_rdy_not_zero[i] && sel_gr_full[i] == 0 && (cpu_2030.GF[i] & BIT2) == 0) {
+                        if (sel_count_left(i) && (cpu_2030.GF[i] & (BIT0|BIT2)) != BIT2) {
                              cpu_2030.GE[i] |= BIT1;
                         }
                         sel_ros_req |= 1 << i;
-- 
2.43.0


From 567474a942ca013a92f377b519541f349780d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:47 +0000
Subject: [PATCH 29/79] fix: 2050 multiplexer channel stored skipped input
 bytes

The skip flag was lost when the device reconnected, so the data of a skipped
read was stored.
---
 src/model2050/cpu2050.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 17b5728..92aa649 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4214,7 +4214,11 @@ channel:
                 if (cpu_2050.last_cycle && cpu_2050.CH == 3 && cpu_2050.BRC == 0) {
                     cpu_2050.ROUTINE[3] = 0x84;   /* RTA1 */
                     cpu_2050.break_in |= 8;
-                    cpu_2050.IOSTAT[3] = cpu_2050.BFR2 << 4;
+                    /* If input and skip flag set, change to skip operator */
+                    if ((cpu_2050.BFR2 & 0x16) == 0x10) {
+                        cpu_2050.BFR2 |= 0x03;
+                    }
+                    cpu_2050.IOSTAT[3] = (cpu_2050.BFR2 << 4) & 0xf0;
                     cpu_2050.FLAGS_REG[3] = 0;
                 }
                 break;
@@ -4250,11 +4254,12 @@ channel:
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
                                 cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
-                            } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                cpu_2050.BI_REG = 0;
                             } else {
                                 cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
                             }
+                        } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
+                            cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
+                            cpu_2050.BI_REG = 0;
                         }
                         if (cpu_2050.BRC == 1 && (cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* Output */
                             cpu_2050.ROUTINE[3] = 0x88;  /* RTA2 */
@@ -4615,7 +4620,7 @@ channel:
                 /*  B3 <- (B2) (BR 4), status in */
                 /* Log out BR 1 */
                 if (cpu_2050.break_in == 0 && cpu_2050.break_out == 0 && cpu_2050.BRC == 4 && (cpu_2050.TAGS_IN[0] & (CHAN_STA_IN)) != 0) {
-                    if ((cpu_2050.IOSTAT[3]  & BIT3) != 0 && (cpu_2050.BFR2 & 0x7) == 0) { /* Skip */
+                    if ((cpu_2050.IOSTAT[3]  & BIT3) != 0 && (cpu_2050.BFR2 & 0x6) == 0) { /* Skip */
                         cpu_2050.BFR2 |= 0x03; /* Skip operator */
                     }
                     cpu_2050.ROUTINE[3] = 0xac; /* RTB3 */
-- 
2.43.0


From 9d772d2b0fb4562c7723abac087a09d5524340b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 30/79] fix: 2030 selector channel 2 kept its state in local
 storage used by multiply, divide and edit

---
 src/model2030/cpu2030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index c4068b1..3974e5d 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1185,7 +1185,7 @@ cycle_2030()
                              (sal->CK & 0x7);
                       /* Use selector channel 2 */
                       if (cpu_2030.ch_sel && ((sal->CK & 0x1e) == 06 || sal->CK == 05))
-                          cpu_2030.N_REG |= 0x10;
+                          cpu_2030.N_REG |= 0x20;
                       cpu_2030.N_REG |= odd_parity[cpu_2030.N_REG];
                       inh_stg_prot = 1;
                       break;
-- 
2.43.0


From 9fad902dcc7c8d9cbaf4d861351b580cedb1b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 31/79] fix: 2050 channel break in before a carry branch lost
 the other branch condition

---
 src/model2050/cpu2050.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 92aa649..dbff7f2 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -1614,6 +1614,9 @@ cycle_2050()
     if (cpu_2050.rest_cycle) {
         cpu_2050.io_mode = 0;
         cpu_2050.NROAR = cpu_2050.BROAR;
+        /* Branch conditions were also determined before the break in */
+        a_bit = (cpu_2050.BROAR & 2) != 0;
+        b_bit = (cpu_2050.BROAR & 1) != 0;
         log_trace("S REG %02x\n", cpu_2050.S_REG);
         cpu_2050.break_out = 0;
     }
-- 
2.43.0


From e36106314ff0473e38aad271b5e8a453eee27105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 32/79] fix: 2050 multiplexer lost count and address when a
 device sent its first byte during START I/O

---
 src/model2050/cpu2050.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index dbff7f2..4d5e631 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4355,9 +4355,9 @@ channel:
                         if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* output */
                              cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                              cpu_2050.break_in |= 8;
-                        } else {
-                             cpu_2050.polling[3] = 1;
-                             cpu_2050.ROUTINE[3] = 0x00;
+                        } else {                                     /* Go save count */
+                             cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
+                             cpu_2050.break_in |= 8;
                         }
                     }
                 }
-- 
2.43.0


From e9f0f0c8be93b5fc58c0a503c3d300a40443f72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 33/79] fix: 2050 took an I/O interruption for the channel
 served last, not for the one which is pending

---
 src/model2050/cpu2050.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 4d5e631..8dc5c50 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3594,6 +3594,14 @@ cycle_2050()
                    log_selchn("Proceed interrupt\n");
                    if (cpu_2050.break_out) {
                        cpu_2050.s3_set = 1;
+                   } else {
+                       /* Select the channel which is allowed to interrupt */
+                       for (i = 0; i < 3; i++) {
+                           if ((cpu_2050.BCHI & cpu_2050.MASK & (BIT1 >> i)) != 0) {
+                               break;
+                           }
+                       }
+                       cpu_2050.CH = i;
                    }
                    if (cpu_2050.CH == 0x3) {
                        cpu_2050.BCHI &= ~BIT0;
-- 
2.43.0


From aa8c9896c9d9014064d87d2aca1b1e0430433d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 34/79] fix: 2050 START I/O to the multiplexer lost a device
 which was being polled

---
 src/model2050/cpu2050.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 8dc5c50..cc2b239 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4005,7 +4005,9 @@ cycle_2050()
                             s_update |= BIT1|BIT2|BIT3;     /* <-- */
                     }
                 } else {
-                    if (cpu_2050.polling[3] == 1 && cpu_2050.ROUTINE[3] == 0) {
+                    /* Not while a device is being polled */
+                    if (cpu_2050.polling[3] == 1 && cpu_2050.ROUTINE[3] == 0 &&
+                        (cpu_2050.TAGS[0] & CHAN_SEL_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_OPR_IN) == 0) {
                         cpu_2050.ROUTINE[3] = 0xa0;
                         cpu_2050.break_in |= 8;
                         cpu_2050.inst_latch = 1;
-- 
2.43.0


From 32cb4b5f47765b5303620f4fa58e2dfd5514aad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 35/79] fix: 2050 channel waiting to break in took over the
 routine of another channel

---
 src/model2050/cpu2050.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index cc2b239..d38c346 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4146,17 +4146,18 @@ cycle_2050()
     /* Handle break in cycle */
     if ((cpu_2050.init_mem | cpu_2050.init_bump_mem) == 0 &&
               cpu_2050.mem_state == W1 && cpu_2050.break_in) {
-        dtc_latch = 0;
         log_trace("check breakout %x\n", cpu_2050.break_in);
-        for (i = 0; i < 4; i++) {
-            if (cpu_2050.break_in & (1 << i)) {
-               cpu_2050.CH = i;
-               cpu_2050.break_in &= ~(1 << i);
-               cpu_2050.polling[i] = 0;
-               break;
-            }
-        }
+        /* A routine in progress keeps the common channel until its end */
         if (!cpu_2050.break_out) {
+            dtc_latch = 0;
+            for (i = 0; i < 4; i++) {
+                if (cpu_2050.break_in & (1 << i)) {
+                   cpu_2050.CH = i;
+                   cpu_2050.break_in &= ~(1 << i);
+                   cpu_2050.polling[i] = 0;
+                   break;
+                }
+            }
             cpu_2050.dead_cycle = 1;
             cpu_2050.break_out = 1;
             log_trace("start breakout %03x\n", cpu_2050.ROAR);
-- 
2.43.0


From 73c044a4c95b81e31658b3745f1585deb61e5f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 36/79] fix: 2050 multiplexer channel changed the byte mask of
 a selector channel storing data

---
 src/model2050/cpu2050.c   | 62 +++++++++++++++++++++------------------
 src/model2050/model2050.h |  1 +
 2 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index d38c346..c196f40 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3081,6 +3081,10 @@ cycle_2050()
                      cpu_2050.IF_STOP[cpu_2050.CH] = 1;
                      break;
                 }
+                /* The multiplexer channel has its own byte mask */
+                if (cpu_2050.CH == 0x3) {
+                    cpu_2050.BI_REG = cpu_2050.MPX_BI;
+                }
                 cpu_2050.SDR_REG =
                               (cpu_2050.SDR_REG & ~BS_MASK[cpu_2050.BI_REG]) |
                               (cpu_2050.aob_latch & BS_MASK[cpu_2050.BI_REG]);
@@ -4212,7 +4216,7 @@ channel:
                         cpu_2050.polling[3] = 0;
                         cpu_2050.ROUTINE[3] = 0x80;  /* RTA0 */
                         cpu_2050.break_in |= 8;
-                        cpu_2050.BI_REG = 0x3;
+                        cpu_2050.MPX_BI = 0x3;
                     }
                 }
                 break;
@@ -4267,13 +4271,13 @@ channel:
                         if ((cpu_2050.IOSTAT[3] & 0x60) == 0) {
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
-                                cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                             } else {
-                                cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                             }
                         } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
-                            cpu_2050.BI_REG = 0;
+                            cpu_2050.MPX_BI = 0;
                         }
                         if (cpu_2050.BRC == 1 && (cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* Output */
                             cpu_2050.ROUTINE[3] = 0x88;  /* RTA2 */
@@ -4345,18 +4349,18 @@ channel:
                              cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                              if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
                                  switch(cpu_2050.BFR1 & 3) {
-                                 case 0:  cpu_2050.BI_REG = 0x1; break;
-                                 case 1:  cpu_2050.BI_REG = 0x8; break;
-                                 case 2:  cpu_2050.BI_REG = 0x4; break;
-                                 case 3:  cpu_2050.BI_REG = 0x2; break;
+                                 case 0:  cpu_2050.MPX_BI = 0x1; break;
+                                 case 1:  cpu_2050.MPX_BI = 0x8; break;
+                                 case 2:  cpu_2050.MPX_BI = 0x4; break;
+                                 case 3:  cpu_2050.MPX_BI = 0x2; break;
                                  }
                              } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                              } else {
-                                 cpu_2050.BI_REG = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
                             }
                         } else {
-                            cpu_2050.BI_REG = 0;
+                            cpu_2050.MPX_BI = 0;
                         }
                         cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                         cpu_2050.break_in |= 8;
@@ -4440,18 +4444,18 @@ channel:
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
                                  switch(cpu_2050.BFR1 & 3) {
-                                 case 0:  cpu_2050.BI_REG = 0x1; break;
-                                 case 1:  cpu_2050.BI_REG = 0x8; break;
-                                 case 2:  cpu_2050.BI_REG = 0x4; break;
-                                 case 3:  cpu_2050.BI_REG = 0x2; break;
+                                 case 0:  cpu_2050.MPX_BI = 0x1; break;
+                                 case 1:  cpu_2050.MPX_BI = 0x8; break;
+                                 case 2:  cpu_2050.MPX_BI = 0x4; break;
+                                 case 3:  cpu_2050.MPX_BI = 0x2; break;
                                  }
                             } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                             } else {
-                                 cpu_2050.BI_REG = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
                             }
                         } else {
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                         }
                         cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                         cpu_2050.break_in |= 8;
@@ -4530,12 +4534,12 @@ channel:
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
                         }
                         cpu_2050.break_in |= 8;
-                        cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                        cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
                         cpu_2050.ROUTINE[3] = 0x8c;      /* RTA3 */
                         cpu_2050.break_in |= 8;
-                        cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                        cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                     }
                 }
                 if (cpu_2050.last_cycle && cpu_2050.CH == 3 && cpu_2050.BRC == 6) {        /* Fetch next CCW */
@@ -4679,9 +4683,9 @@ channel:
                 }
                 if (dtc1 && cpu_2050.CH == 3 && cpu_2050.BRC == 7) {
                     if ((cpu_2050.IOSTAT[3] & 0x70) == 0x10) {
-                         cpu_2050.BI_REG = 0x1 << (cpu_2050.BFR1 & 3);
+                         cpu_2050.MPX_BI = 0x1 << (cpu_2050.BFR1 & 3);
                     } else {
-                         cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                         cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                     }
                 }
 
@@ -4691,11 +4695,11 @@ channel:
                         if ((cpu_2050.IOSTAT[3] & 0x70) != 0x60) {   /* Not output */
                              cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                              if ((cpu_2050.IOSTAT[3]  & 0x70) == 0x10) { /* Backword */
-                                 cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                              } else if ((cpu_2050.IOSTAT[3] & 0x70) == 0x30) { /* Skip */
-                                 cpu_2050.BI_REG = 0;
+                                 cpu_2050.MPX_BI = 0;
                              } else {
-                                 cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                                 cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                             }
                         }
                         cpu_2050.ROUTINE[3] = 0x88; /* RTA2 */
@@ -4983,14 +4987,14 @@ channel:
                             (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
                             cpu_2050.break_in |= 8;
-                            cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                         }
                         if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 &&
                             (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
                             cpu_2050.ROUTINE[3] = 0x88;  /* RTA2 */
                             cpu_2050.break_in |= 8;
-                            cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                         }
                         if ((cpu_2050.TAGS_IN[0] & CHAN_OPR_IN) == 0) {
                             cpu_2050.ROUTINE[3] = 0xb4; /* RTB5 */
@@ -5083,7 +5087,7 @@ channel:
                             cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                             cpu_2050.break_in |= 8;
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
-                            cpu_2050.BI_REG = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
+                            cpu_2050.MPX_BI = 0x8 >> ((cpu_2050.BFR1 + 1) & 3);
                         }
                     }
                     if (cpu_2050.BRC == 1 || cpu_2050.BRC == 3) {
@@ -5096,7 +5100,7 @@ channel:
                             cpu_2050.ROUTINE[3] = 0x88;  /* RTA2 */
                             cpu_2050.break_in |= 8;
                             cpu_2050.BFR2 = cpu_2050.BUS_IN[0] & 0xff;
-                            cpu_2050.BI_REG = 0x8 >> (cpu_2050.BFR1 & 3);
+                            cpu_2050.MPX_BI = 0x8 >> (cpu_2050.BFR1 & 3);
                         }
                         if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
                             if ((cpu_2050.IOSTAT[3] & 0x60) == 0) { /* If input set to output */
diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index 694d69a..1e8378e 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -143,6 +143,7 @@ uint8_t     Q_REG;              /* Q register */
 uint8_t     S_REG;              /* S status bits */
 uint8_t     BS_REG;             /* Byte mask regiser */
 uint8_t     BI_REG;             /* Byte mask in I/O mode */
+uint8_t     MPX_BI;             /* Byte mask of multiplexer channel */
 uint8_t     IO_REG;             /* IO register. */
 uint8_t     ED_STAT;            /* Edit status bits */
 uint8_t     LSGNS;              /* Left sign flag */
-- 
2.43.0


From bc24827d9f263aed22800b416e7a67c0969556c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 37/79] fix: 2050 selector channel took timing signals and
 START I/O meant for another channel

---
 src/model2050/cpu2050.c   | 51 +++++++++++++++++++++------------------
 src/model2050/model2050.h |  1 +
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index c196f40..49d482c 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3923,6 +3923,7 @@ cycle_2050()
                 if (cpu_2050.CHCTL == 0x80) {
                     i = 0;
                 }
+                cpu_2050.inst_ch = i;
                 if (i > 3) {   /* Invalid channel */
                     cpu_2050.CC = 3;
                     s_update |= BIT3;     /* <-- */
@@ -5253,7 +5254,7 @@ channel:
                       cpu_2050.break_in |= mask;
                       break;
              case BIT4:  /* SIO Routine */
-                      if (cpu_2050.inst_latch && i == (((cpu_2050.L_REG >> 8) -1) & 0x3)) {
+                      if (cpu_2050.inst_latch && i == cpu_2050.inst_ch - 1) {
                           cpu_2050.ROUTINE[i] = 0x10;   /* .STIO qv100 */
                           cpu_2050.FLAGS_REG[i] = 0;
                       } else {
@@ -5286,17 +5287,21 @@ channel:
     /* Flags register holds CCW flags in upper byte, check flags in lower byte */
     for (i = 0; i < 3; i++) {
         int   ch = i + 1;
-        int   inst = cpu_2050.inst_latch & (cpu_2050.CH == i);
+        int   inst = cpu_2050.inst_latch & (cpu_2050.inst_ch == ch);
+        /* Timing signals of the common channel belong to the routine in progress */
+        int   ch_dtc1 = dtc1 && cpu_2050.CH == i;
+        int   ch_dtc2 = dtc2 && cpu_2050.CH == i;
+        int   ch_last = cpu_2050.last_cycle && cpu_2050.CH == i;
         cpu_2050.TAGS_IN[ch] &= IN_TAGS;
         cpu_2050.TAGS_IN[ch] |= cpu_2050.TAGS[ch];
         for (dev = chan[ch]; dev != NULL; dev = dev->next) {
              dev->bus_func(dev, &cpu_2050.TAGS_IN[ch], cpu_2050.BUS_OUT[ch], &cpu_2050.BUS_IN[ch]);
         }
         if (cpu_2050.CHPOS[i] != 0) {
-            if (cpu_2050.CHPOS[i] == 0x200 && cpu_2050.last_cycle) {
+            if (cpu_2050.CHPOS[i] == 0x200 && ch_last) {
                    cpu_2050.CHPOS[i] = 0;
             }
-            if (cpu_2050.CHPOS[i] == 0x400 && cpu_2050.last_cycle) {
+            if (cpu_2050.CHPOS[i] == 0x400 && ch_last) {
                    cpu_2050.CHCLK[i] = 0;
                    cpu_2050.CHPOS[i] = 0;
                    cpu_2050.B_REG[i] = cpu_2050.aob_latch;
@@ -5306,9 +5311,9 @@ channel:
             /* UA Fetch */
             if (cpu_2050.CHPOS[i] == 0x100) {
                log_device("UA Fetch\n");
-               if (dtc2) {
+               if (ch_dtc2) {
                    log_device("DTC2\n");
-                   dtc2 = 0;
+                   ch_dtc2 = 0;
                    cpu_2050.C_REG[i] = cpu_2050.aob_latch;
                    cpu_2050.B_REG[i] = 0;
                    cpu_2050.CHREQ[i] = BIT2|BIT4;
@@ -5321,10 +5326,10 @@ channel:
                log_device("CCW1 D2=%d\n", cpu_2050.D2[i]);
                /* On entry IOS1 is SMS flag */
                /* D2 indicates last operation was TIC */
-               if (dtc2) {
+               if (ch_dtc2) {
                    int   cmd;
                    log_selchn("DTC2 %x\n", cpu_2050.CHCLK[i]);
-                   dtc2 = 0;
+                   ch_dtc2 = 0;
                    switch(cpu_2050.CHCLK[i]) {
                    case 0:
                            cpu_2050.CHCLK[i] = 1;
@@ -5393,7 +5398,7 @@ channel:
                            break;
                    }
                }
-               if (cpu_2050.last_cycle) {
+               if (ch_last) {
                            cpu_2050.ROUTINE[i] = 0x30;  /* .CCW2 qv103 */
                            cpu_2050.CHPOS[i] = BIT1;
                            cpu_2050.CHCLK[i] = 0;
@@ -5407,9 +5412,9 @@ channel:
                 log_device("CCW2 D2=%d\n", cpu_2050.D2[i]);
                 /* IOSTAT 2 = TIC
                    IOSTAT 1 = BKWD */
-                if (dtc2) {
+                if (ch_dtc2) {
                     log_selchn("DTC2 %x\n", cpu_2050.CHCLK[i]);
-                    dtc2 = 0;
+                    ch_dtc2 = 0;
                     switch(cpu_2050.CHCLK[i]) {
                     case 0:
                             cpu_2050.CHCLK[i] = 1;
@@ -5760,7 +5765,7 @@ channel:
                 /* IOSTAT 3 = LS loaded
                    IOSTAT 2 = SKIP
                    IOSTAT 1 = BKWD */
-                if (cpu_2050.last_cycle) {
+                if (ch_last) {
                     log_trace("Last cycle\n");
                     cpu_2050.CHCLK[i] = 0;
                     cpu_2050.CHPOS[i] = 0;
@@ -5778,7 +5783,7 @@ channel:
             /* Write Fetch */
             if (cpu_2050.CHPOS[i] == BIT4) {
                log_device("Write fetch\n");
-               if (dtc2) {
+               if (ch_dtc2) {
                    switch(cpu_2050.CHCLK[i]) {
                    case 0:
                             cpu_2050.CHCLK[i] = 1;
@@ -5797,7 +5802,7 @@ channel:
                             break;
                    }
                }
-               if (cpu_2050.last_cycle) {
+               if (ch_last) {
                    log_trace("Last cycle\n");
                    cpu_2050.CHCLK[i] = 0;
                    cpu_2050.CHPOS[i] = 0;
@@ -5812,9 +5817,9 @@ channel:
                   IOSTAT 2 = Not 2 regs full and not 1 reg ful
                   IOSTAT 1 = WR CHAIN DATA AND NEW CCW NOT USED,
                   C3 indicates PCI */
-               if (dtc1) {
+               if (ch_dtc1) {
                    log_device("DTC1\n");
-                   dtc1 = 0;
+                   ch_dtc1 = 0;
                    switch(cpu_2050.CHCLK[i]) {
                    case 0:
                            cpu_2050.CHCLK[i] = 1;
@@ -5860,7 +5865,7 @@ channel:
                           break;
                    }
                }
-               if (cpu_2050.last_cycle) {
+               if (ch_last) {
                    /* Check for Short Length record. */
                    if (cpu_2050.C3[i] == 0 &&
                        (cpu_2050.FLAGS_REG[i] & ((CHAN_SLI_FLAG) << 8)) == 0 &&
@@ -5875,18 +5880,18 @@ channel:
             /* Compare */
             if (cpu_2050.CHPOS[i] == BIT6) {
                 log_device("Compare\n");
-                if (cpu_2050.first_cycle) {
+                if (cpu_2050.first_cycle && cpu_2050.CH == i) {
                     cpu_2050.L_REG &= 0x00ffffff;
                     cpu_2050.L_REG |= cpu_2050.C_REG[i] & 0xff000000;
                 }
-                if (dtc2) {
+                if (ch_dtc2) {
                     if ((cpu_2050.aob_latch & 0x00800000) != 0) {
                         cpu_2050.C1[i] = 1;
                     } else {
                         cpu_2050.C1[i] = 0;
                     }
                 }
-                if (cpu_2050.last_cycle) {
+                if (ch_last) {
                     cpu_2050.CHPOS[i] = 0;
                     cpu_2050.TAGS[ch] |= CHAN_CMD_OUT;
                 }
@@ -5899,9 +5904,9 @@ channel:
                       1   1    Poll Proceed.
                  */
                 log_device("Intrp %d %d\n", cpu_2050.D1[i], cpu_2050.C3[i]);
-                if (dtc1) {
+                if (ch_dtc1) {
                     log_device("DTC1\n");
-                    dtc1 = 0;
+                    ch_dtc1 = 0;
                     switch(cpu_2050.CHCLK[i]) {
                     case 0:
                            cpu_2050.CHCLK[i] = 1;
@@ -5914,7 +5919,7 @@ channel:
                            break;
                     }
                 }
-                if (cpu_2050.last_cycle) {
+                if (ch_last) {
                     if ((cpu_2050.TAGS_IN[ch] & CHAN_OPR_IN) == 0) {
                         cpu_2050.polling[i] = 1;
                         cpu_2050.TAGS[ch] &= ~CHAN_SUP_OUT;
diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index 1e8378e..9b2d355 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -189,6 +189,7 @@ uint8_t     chpostest;          /* Do CHPosTest */
 uint8_t     CHCTL;              /* Channel control register */
 
 uint8_t     CH;                 /* Current channel select */
+int         inst_ch;            /* Channel addressed by I/O instruction */
 uint8_t     BRC;                /* Branch control register */
 uint16_t    BFR1;               /* MPX buffer 1 */
 uint16_t    BFR2;               /* MPX buffer 1 */
-- 
2.43.0


From 488222c58f3283bfcd1d14aba30c3450a0b9e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 38/79] fix: 2050 selector channel ended output early when its
 last word was still being fetched

---
 src/model2050/cpu2050.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 49d482c..a28bda8 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5799,6 +5799,7 @@ channel:
                             } else {
                                 cpu_2050.LS_FULL[i] = 1;
                             }
+                            cpu_2050.CHCLK[i] = 3;
                             break;
                    }
                }
@@ -6210,7 +6211,9 @@ channel:
                             cpu_2050.GP_REG[i] &= 0x7f;
                             cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
                             /* Check if empty */
-                            if (cpu_2050.EOR[i] && cpu_2050.B_FULL[i] == 0 && cpu_2050.LS_FULL[i] == 0) {
+                            /* The last word may still be on its way from storage */
+                            if (cpu_2050.EOR[i] && cpu_2050.B_FULL[i] == 0 && cpu_2050.LS_FULL[i] == 0 &&
+                                (cpu_2050.CHPOS[i] != BIT4 || cpu_2050.CHCLK[i] == 3)) {
                                 if ((((cpu_2050.GP_REG[i] >> 2) ^ (cpu_2050.GP_REG[i])) & 0x18) == 0) {
                                     log_device("Set C Empty last %02x  %02x\n", cpu_2050.GP_REG[i],
                                               ((cpu_2050.GP_REG[i] >> 2) ^ cpu_2050.GP_REG[i]) & 0x18);
-- 
2.43.0


From dd779a90d7e5b2c13794a179f7d12630c6a461fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:34 +0000
Subject: [PATCH 39/79] fix: 2050 selector channel program check requested the
 interruption of the wrong channel

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index a28bda8..2ee2229 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5394,7 +5394,7 @@ channel:
                            cpu_2050.FLAGS_REG[i] |= CHAN_PROG;
                            cpu_2050.CHCLK[i] = 0;
                            cpu_2050.CHPOS[i] = 0;
-                           cpu_2050.BCHI |= BIT0 >> i;    /* Request interrupt */
+                           cpu_2050.BCHI |= BIT1 >> i;    /* Request interrupt */
                            break;
                    }
                }
-- 
2.43.0


From 6e2e2140973365e75e4eb418ca1fb7294241313f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:42 +0000
Subject: [PATCH 40/79] fix: 2030 lost the selected channel when a selector
 channel routine broke in

---
 src/model2030/cpu2030.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 3974e5d..79c4275 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1454,6 +1454,7 @@ cycle_2030()
                  cpu_2030.GWX = cpu_2030.WX;
                  cpu_2030.SEL_X6X7 = nextWX & 3;
                  sel_chain_pulse = 0;
+                 cpu_2030.ch_sav = cpu_2030.ch_sel;
                  if (sel_ros_req & 1) {
                     cpu_2030.ch_sel = 0;
                     sel_ros_req &= 2;
-- 
2.43.0


From 42440a3c93179fd8d678497c22fdffa1eb49f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 41/79] fix: 2050 selector channel hung or lost a status when
 polling a device

---
 src/model2050/cpu2050.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 2ee2229..64766ee 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5957,10 +5957,13 @@ channel:
                  cpu_2050.C_REG[i] |= ((uint32_t)cpu_2050.BUS_IN[ch] & 0xff) << 24;
                  cpu_2050.TAGS[ch] |= CHAN_CMD_OUT;
             }
+            if ((cpu_2050.TAGS_IN[ch] & (CHAN_ADR_IN|CHAN_CMD_OUT)) == (CHAN_CMD_OUT)) {
+                 cpu_2050.TAGS[ch] &= ~CHAN_CMD_OUT;
+            }
             if ((cpu_2050.TAGS_IN[ch] & (CHAN_STA_IN|CHAN_OPR_IN)) == (CHAN_STA_IN|CHAN_OPR_IN)) {
                  log_selchn("Post status\n");
                  cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
-                 cpu_2050.TAGS[ch] &= ~CHAN_CMD_OUT;
+                 cpu_2050.TAGS[ch] &= ~(CHAN_CMD_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT);
                  cpu_2050.B_REG[i] = cpu_2050.C_REG[i];
                  cpu_2050.C_REG[i] &= 0x00ffffff;
                  cpu_2050.C_REG[i] |= ((uint32_t)cpu_2050.BUS_IN[ch] & 0xff) << 24;
-- 
2.43.0


From 73103c71c415acce9334170d74e202e777c3fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 42/79] fix: 1442 punch keeps the parity bit of bus out in its
 data

---
 src/model1442/model1442.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index b0cc740..495826b 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -724,7 +724,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                           ctx->busy = 0;
                           ctx->cmd_done = 1;
                       } else {
-                          ctx->data = bus_out; /* Grab data */
+                          ctx->data = bus_out & 0xff; /* Grab data */
                       }
                  }
                  ctx->state = STATE_OPR;   /* Go to process this data */
-- 
2.43.0


From 72b99b3743b7447e31d2f4d757dae1a50a3a8589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 43/79] fix: 1442 presents initial status while command out is
 still up

---
 src/model1442/model1442.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 495826b..af11d67 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -474,6 +474,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STATUS:
              /* Wait for Command out to drop */
              *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);      /* Drop address in */
+             if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) != 0) {
+                 break;
+             }
 
              *bus_in = ctx->status | odd_parity[ctx->status];
              log_device("1442: %03x initial status %02x\n",unit->addr, ctx->status);
-- 
2.43.0


From f3bd4c6a401b0a6f2f9c51142eb91131e8a34771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 44/79] fix: 1442 write with no card at the punch station
 raises intervention required

---
 src/model1442/model1442.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index af11d67..4edfd52 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -222,6 +222,7 @@ device_cmd(struct _device *unit, uint8_t bus_out)
            ctx->stk_sel = (cmd & 0x20) != 0;
            /* Check if card in correct station */
            if (ctx->pch_full == 0) {
+               ctx->sense |= SENSE_INTERV;
                break;
            }
            ctx->cmd = cmd;
-- 
2.43.0


From c377d7b80017cb16672d415b914140b4af6ed615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 45/79] fix: 1442 keeps asking for service after stacked status
 was accepted

---
 src/model1442/model1442.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 4edfd52..fcbfd6f 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -501,6 +501,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 log_device("1442: %03x status accepted\n",unit->addr);
 
                 ctx->status = 0;
+                unit->stacked = 0;
                 *tags &= ~(CHAN_STA_IN);
                 /* If end of command, and status accepted, all done */
                 if (ctx->cmd_done || ctx->cmd == 0) {
@@ -602,6 +603,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
                  log_device("1442: %03x status accepted %d\n",unit->addr, unit->request);
                  ctx->status = 0;
+                 unit->stacked = 0;
                  /* If end of command, and status accepted, all done */
                  if (ctx->cmd_done) {
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
-- 
2.43.0


From b7fcf7df35dccb02fa5e3de49b66dadcfc6f419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 46/79] fix: 1442 drops operational in with hold out up, then
 raises status in unselected

---
 src/model1442/model1442.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index fcbfd6f..039ac2b 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -616,11 +616,6 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      break;
                  }
 
-                 if (ctx->data_end) {
-                     *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
-                     ctx->state = STATE_STATUS_WAIT;
-                     break;
-                 }
                  /* Check if on selector channel */
                  if ((*tags & CHAN_HLD_OUT) != 0) {
                      *tags &= ~(CHAN_STA_IN);
@@ -638,6 +633,13 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             log_device("1442: %03x wait end b=%d cd=%d %02x %02x\n",unit->addr,
                 ctx->busy, ctx->cmd_done, ctx->cmd, ctx->status);
              *tags &= ~(CHAN_SEL_OUT);
+             /* If channel no longer holds us, disconnect until done */
+             if ((*tags & (CHAN_HLD_OUT|CHAN_SRV_OUT)) == 0) {
+                 unit->selected = 0;
+                 *tags &= ~(CHAN_OPR_IN);
+                 ctx->state = STATE_IDLE;
+                 break;
+             }
              if (ctx->cmd_done) {
                  unit->request = 0;
                  ctx->state = STATE_STATUS;
-- 
2.43.0


From 5d5491776bfa6c04b1091c8a648956c05a0672d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 47/79] fix: 1442 halt I/O leaves the device selected, running
 or without ending status

---
 src/model1442/model1442.c | 64 ++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 039ac2b..645fcea 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -187,7 +187,32 @@ device_stop(struct _device *unit)
             cancel_event(unit, &read_callback);
             add_event(unit, &feed_callback, 1000, NULL, 0);
             break;
+
+    case 0: /* Sense */
+            ctx->status |= SNS_DEVEND;
+            ctx->cmd_done = 1;
+            ctx->busy = 0;
+            break;
+    }
+}
+
+/* Disconnect from channel and end data transfer */
+static void
+device_halt(struct _device *unit, uint16_t *tags)
+{
+    struct _1442_context *ctx = (struct _1442_context *)unit->dev;
+
+    log_device("1442: %03x Halt device\n", unit->addr);
+    *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_STA_IN|CHAN_SRV_IN);
+    if (ctx->cmd != 0 && ctx->data_end == 0) {
+        ctx->data_rdy = 0;
+        device_stop(unit);
+    }
+    if (ctx->status != 0) {
+        unit->request = 1;
     }
+    unit->selected = 0;
+    ctx->state = STATE_IDLE;
 }
 
 /* Decode command to device */
@@ -459,13 +484,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
             /* If we get Address out again, we need to halt */
             if ((*tags & (CHAN_ADR_OUT)) != 0 && (*tags & CHAN_HLD_OUT) == 0) {
-                *tags &= ~(CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
-                log_device("1442: Halt %03x device\n",unit->addr);
-                if (ctx->data_end == 0) {
-                    ctx->data_end = 1;
-                    ctx->status |= SNS_CHNEND;
-                }
-                ctx->state = STATE_STATUS_WAIT;
+                device_halt(unit, tags);
                 break;
             }
 
@@ -530,8 +549,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 break;
              }
              if ((*tags & CHAN_ADR_OUT) != 0) {   /* CPU wants to talk to device */
-                 ctx->state = STATE_IDLE;
-                 *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);
+                 device_halt(unit, tags);
              }
              break;
 
@@ -559,11 +577,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  /* If address out, halt device */
                  if ((*tags & CHAN_ADR_OUT) != 0) {
                      log_device("1442: %03x Halt IO\n",unit->addr);
-                     if (ctx->data_end == 0) {
-                         ctx->data_rdy = 0;
-                         ctx->data_end = 1;
-                         unit->request = 1;
-                     }
+                     device_halt(unit, tags);
                  }
              }
              *tags &= ~(CHAN_SEL_OUT);
@@ -625,6 +639,11 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
                      ctx->state = STATE_STATUS_WAIT;
                  }
+                 break;
+             }
+             /* Halted before status was accepted, keep it until later */
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 device_halt(unit, tags);
              }
              break;
 
@@ -655,12 +674,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* If address out, halt device */
              if ((*tags & CHAN_ADR_OUT) != 0) {
-                 ctx->data_end = 1;
-                 ctx->data_rdy = 0;
-                 ctx->status |= SNS_CHNEND;
-                 *tags &= ~(CHAN_OPR_IN);
-                 unit->selected = 0;
-                 ctx->state = STATE_IDLE;
+                 device_halt(unit, tags);
                  break;
              }
 
@@ -702,7 +716,11 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
       case STATE_DATA_1:      /* Send or recieve data from CPU */
              *tags &= ~CHAN_SEL_OUT;
-             if ((*tags & CHAN_SRV_OUT) != 0) {
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                  device_halt(unit, tags);
+                  break;
+             }
+             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
                   /* Wait for service out to drop */
                   break;
              }
@@ -718,6 +736,10 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
       case STATE_DATA_2:      /* Complete transfer */
              *tags &= ~CHAN_SEL_OUT;
              *bus_in = ctx->data | odd_parity[ctx->data];
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                  device_halt(unit, tags);
+                  break;
+             }
              if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
                  /* Wait for service out or command out */
                  *tags &= ~(CHAN_SRV_IN);   /* Clear service in request */
-- 
2.43.0


From 53a77bc28f504443ff484058f183d1f085ff5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:06 +0000
Subject: [PATCH 48/79] fix: 1443 scrolls its picture of the paper with
 overlapping memcpy

---
 src/model1443/model1443.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3096da5..3528716 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -981,7 +981,7 @@ print_line(struct _1443_context *ctx)
     if (l < 4) {
         while(l != 0) {
             fwrite("\r\n", 1, 2, ctx->file);
-            memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+            memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
             memset(&ctx->output[14][0], 0, 120);
             r++;
             f = 0;
@@ -998,7 +998,7 @@ print_line(struct _1443_context *ctx)
             l--;
         }
         if (ctx->row > ctx->lpp) {
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+           memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
            memset(&ctx->output[14][0], 0, 120);
            if (f)
                fwrite("\r\n", 1, 2, ctx->file);
@@ -1026,7 +1026,7 @@ print_line(struct _1443_context *ctx)
          if (i > ctx->lpp) {
              log_device("printer skip2 %d > %d\n", i, ctx->lpp);
              fwrite("\r\n\f", 1, 3, ctx->file);
-             memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+             memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
              memset(&ctx->output[14][0], 0, 120);
              f = 1;
              r = 0;
@@ -1041,7 +1041,7 @@ print_line(struct _1443_context *ctx)
     if (ctx->fcb[i] & mask) {
         while (r-- > 0) {
            fwrite("\r\n", 1, 2, ctx->file);
-           memcpy(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+           memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
            memset(&ctx->output[14][0], 0, 120);
            ctx->row++;
            if (ctx->row > ctx->lpp) {
-- 
2.43.0


From caf0913e072a6a95c56e9cc922c70cc392f26671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 49/79] fix: print_tags reads beyond the table of state names
 for printer states

---
 src/device/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device/device.c b/src/device/device.c
index 0d6f7d7..c462dbc 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -55,9 +55,11 @@ print_tags(char *name, int state, uint16_t tags, uint16_t bus_out)
     if ((tags & 0xf8ff) != 0) {
         char   buffer[1024];
         int i;
+        int n = sizeof(state_tags) / sizeof(state_tags[0]);
 
         sprintf(buffer, "%s state=%s Tags: bus=%03x %04x ", name,
-                         state_tags[state], bus_out, tags);
+                         (state >= 0 && state < n) ? state_tags[state] : "?",
+                         bus_out, tags);
         for (i = 0; i < 16; i++) {
             if (bus_tags[i] != NULL) {
               if ((tags & (0x8000 >> i)) != 0) {
-- 
2.43.0


From 8a2f7587b848ac8a05a35bcb3ee9d51a787881cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 50/79] fix: 1443 skips run off the form, forms have one line
 too many

---
 src/model1443/model1443.c | 55 +++++++++++++++++----------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 3528716..744af20 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -993,11 +993,11 @@ print_line(struct _1443_context *ctx)
                 ch12 = 1;
             }
             ctx->row++;
-            if (ctx->row > ctx->lpp)
+            if (ctx->row >= ctx->lpp)
                 break;
             l--;
         }
-        if (ctx->row > ctx->lpp) {
+        if (ctx->row >= ctx->lpp) {
            memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
            memset(&ctx->output[14][0], 0, 120);
            if (f)
@@ -1017,42 +1017,35 @@ print_line(struct _1443_context *ctx)
     }
 
     mask = 0x1000 >> (l & 0xf);  /* Mask which channel to stop at */
-    f = 0;     /* Indicate if we started new form */
-    l = 0;     /* Total lines skipped */
-    r = 0;     /* What row we should be on */
-    for (i = ctx->row + 1; (ctx->fcb[i] & mask) == 0 && ctx->row != i; i++) {
-         l++;
-         r++;
-         if (i > ctx->lpp) {
-             log_device("printer skip2 %d > %d\n", i, ctx->lpp);
-             fwrite("\r\n\f", 1, 3, ctx->file);
-             memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-             memset(&ctx->output[14][0], 0, 120);
-             f = 1;
-             r = 0;
-         }
+    r = ctx->row;  /* What row we should be on */
+    /* Find next row with hole in channel, going over end of form */
+    for (l = 1; l <= ctx->lpp; l++) {
+        if (++r >= ctx->lpp) {
+            r = 0;
+        }
+        if ((ctx->fcb[r] & mask) != 0) {
+            break;
+        }
     }
 
-    /* If we passed over form, clear row */
-    if (f) {
-       ctx->row = 0;
+    /* If no hole in channel, form does not move */
+    if (l > ctx->lpp) {
+        l = 0;
     }
 
-    if (ctx->fcb[i] & mask) {
-        while (r-- > 0) {
-           fwrite("\r\n", 1, 2, ctx->file);
-           memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
-           memset(&ctx->output[14][0], 0, 120);
-           ctx->row++;
-           if (ctx->row > ctx->lpp) {
-               log_device("printer skip %d > %d\n", ctx->row, ctx->lpp);
-               fwrite("\f", 1, 1, ctx->file);
-               ctx->row = 0;
-           }
+    for (i = 0; i < l; i++) {
+        fwrite("\r\n", 1, 2, ctx->file);
+        memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
+        memset(&ctx->output[14][0], 0, 120);
+        ctx->row++;
+        if (ctx->row >= ctx->lpp) {
+            log_device("printer skip %d > %d\n", ctx->row, ctx->lpp);
+            fwrite("\f", 1, 1, ctx->file);
+            ctx->row = 0;
         }
     }
     time += 20 + (5 * l);
-    return l;
+    return time;
 }
 
 int
-- 
2.43.0


From d26f9ebd7061d810320318f5965e52afbb3bd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 51/79] fix: 1443 unit check missing in ending status when
 offered, and given to sense

---
 src/model1443/model1443.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 744af20..257d12b 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -734,6 +734,9 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if (ctx->busy_flag) {
                 ctx->status |= SNS_CTLEND;
              }
+             if (ctx->sense != 0 && ctx->cmd != 0x4) {
+                ctx->status |= SNS_UNITCHK;
+             }
 
              *bus_in = ctx->status | odd_parity[ctx->status];
 
@@ -741,10 +744,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == 0) {
                  log_device("printer End status %02x %02x\n", ctx->status, ctx->cmd);
                  *tags |= CHAN_STA_IN;
-                 if (ctx->sense != 0) {
-                     ctx->status |= SNS_UNITCHK;
-                 }
-                 ctx->cmd = 0;
                  break;
              }
 
-- 
2.43.0


From a19a74378e220fc6ada5247190afda335f78f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 52/79] fix: 1443 prints a line without spacing behind the line
 before instead of over it

---
 src/model1443/model1443.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 257d12b..5e1186a 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -978,6 +978,10 @@ print_line(struct _1443_context *ctx)
 
     f = 1;  /* Indicate we need to output a new line */
     if (l < 4) {
+        /* No motion, next line prints over this one */
+        if (l == 0) {
+            fwrite("\r", 1, 1, ctx->file);
+        }
         while(l != 0) {
             fwrite("\r\n", 1, 2, ctx->file);
             memmove(&ctx->output[0][0], &ctx->output[1][0], 14 * 120);
@@ -1030,6 +1034,7 @@ print_line(struct _1443_context *ctx)
     /* If no hole in channel, form does not move */
     if (l > ctx->lpp) {
         l = 0;
+        fwrite("\r", 1, 1, ctx->file);
     }
 
     for (i = 0; i < l; i++) {
-- 
2.43.0


From 87796367ca7c966b71f683e7b958ac4a2e06f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 53/79] fix: 1442 answers a command with pending status without
 busy, as if the command was done

---
 src/model1442/model1442.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 645fcea..d316182 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -208,6 +208,7 @@ device_halt(struct _device *unit, uint16_t *tags)
         ctx->data_rdy = 0;
         device_stop(unit);
     }
+    ctx->status &= ~SNS_BSY;
     if (ctx->status != 0) {
         unit->request = 1;
     }
@@ -469,8 +470,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         ctx->state = STATE_DATA_1;
                         break;
                     }
-                    if (ctx->status == 0) {
-                        ctx->status = SNS_BSY;
+                    if (ctx->status == 0 || (bus_out & 0xff) != 0) {
+                        ctx->status |= SNS_BSY;
                     }
                     ctx->state = STATE_STATUS; /* Present status out */
                     break;
@@ -478,6 +479,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                 ctx->state = STATE_STATUS; /* Present status out */
                 if (!unit->stacked && ctx->status == 0) {       /* If no stacked status, process command */
                     device_cmd(unit, bus_out & 0xff);
+                } else if ((bus_out & 0xff) != 0) {
+                    /* New command can't start until status is accepted */
+                    ctx->status |= SNS_BSY;
                 }
                 break;
             }
@@ -512,6 +516,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if ((*tags & CHAN_CMD_OUT) != 0) {      /* CPU does not want status, stack it */
                  log_device("1442: %03x status stacked\n",unit->addr);
                  unit->stacked = 1;
+                 ctx->status &= ~SNS_BSY;
                  ctx->state = STATE_STATUS_WAIT;
                  *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);
                  break;
-- 
2.43.0


From aaf4d8e4de1ed4c4dcca540b9574ceb5f4993c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:27 +0000
Subject: [PATCH 54/79] fix: 1443 loses data, status or selection when answered
 late, stacked, halted, reset or busy

---
 src/model1443/model1443.c | 494 ++++++++++++++++++--------------------
 1 file changed, 228 insertions(+), 266 deletions(-)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index 5e1186a..e193dd4 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -67,12 +67,11 @@ DEV_LIST_STRUCT(1443, DEV_TYPE, 0);
 #define STATE_DATA_I    8     /* Data in  to device */
 #define STATE_DATA_END  9     /* Post end of channel usage */
 #define STATE_END       10    /* Post ending status */
-#define STATE_STACK     11    /* Channel polling */
 #define STATE_STACK_SEL 12    /* Stack status select */
 #define STATE_STACK_CMD 13    /* Stack status select */
 #define STATE_STACK_STA 14    /* Stack status status */
-#define STATE_STACK_HLD 15    /* Stack status select */
 #define STATE_WAIT      16    /* After data transfer wait motion */
+#define STATE_BUSY      17    /* Return busy status */
 
 
 static const uint16_t cctape_legacy[] = {
@@ -162,6 +161,59 @@ done_callback(struct _device *unit, void *arg, int iarg)
     ctx->feed_done = 1;
 }
 
+/* All data transfered, start motion and set up ending status */
+static void
+finish_data(struct _device *unit)
+{
+    struct _1443_context *ctx = (struct _1443_context *)unit->dev;
+
+    if (ctx->cmd == 0x4) {   /* If sense, end command */
+        ctx->status = SNS_CHNEND|SNS_DEVEND;
+    }
+
+    if ((ctx->cmd & 07) == 1) { /* If write, print the line */
+        add_event(unit, done_callback, 2000 * print_line(ctx), NULL, 0);
+        ctx->status |= SNS_CHNEND;
+    }
+}
+
+/* Add what goes along with device end */
+static void
+end_status(struct _1443_context *ctx)
+{
+    if ((ctx->status & SNS_DEVEND) != 0) {
+        if (ctx->busy_flag) {
+            ctx->status |= SNS_CTLEND;
+        }
+        if (ctx->sense != 0 && ctx->cmd != 0x4) {
+            ctx->status |= SNS_UNITCHK;
+        }
+    }
+}
+
+/* Disconnect from channel, status is presented when we are polled */
+static void
+halt_device(struct _device *unit, uint16_t *tags)
+{
+    struct _1443_context *ctx = (struct _1443_context *)unit->dev;
+
+    log_device("printer Halt device\n");
+    *tags &= ~(CHAN_SEL_OUT|CHAN_OPR_IN|CHAN_ADR_IN|CHAN_STA_IN|CHAN_SRV_IN);
+    ctx->selected = 0;
+    ctx->addressed = 0;
+    if (ctx->cmd != 0 && (ctx->status & (SNS_CHNEND|SNS_DEVEND)) == 0) {
+        ctx->data_rdy = 0;
+        ctx->data_end = 1;
+        finish_data(unit);
+    }
+    if (ctx->status != 0) {
+        ctx->data_end = 1;
+        ctx->state = STATE_REQ;
+    } else {
+        ctx->state = STATE_IDLE;
+    }
+}
+
 void
 model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *bus_in)
 {
@@ -190,6 +242,9 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         ctx->state = STATE_IDLE;
         ctx->sense = 0;
         ctx->cmd = 0;
+        ctx->busy_flag = 0;
+        ctx->feed_done = 0;
+        cancel_event(unit, &done_callback);
         return;
     }
 
@@ -238,10 +293,9 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
              /* If we get Address out again, we need to halt */
              if (ctx->selected && (*tags & (CHAN_ADR_OUT)) != 0) {
-                  *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN|CHAN_OPR_IN);  /* Clear select in */
-                  ctx->selected = 0;
-                  log_device("printer Halt device\n");
-                  ctx->state = STATE_IDLE;
+                  ctx->cmd = 0;
+                  ctx->status = 0;
+                  halt_device(unit, tags);
                   break;
              }
 
@@ -348,12 +402,19 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  if ((*tags & (CHAN_CMD_OUT|CHAN_STA_IN)) == (CHAN_CMD_OUT|CHAN_STA_IN)) {
                      log_device("test stacking inital\n");
                      *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
-                     ctx->state = STATE_STACK;
+                     ctx->state = STATE_REQ;
+                     ctx->data_end = 1;
                      ctx->stacked = 1;
                      ctx->selected = 0;
                      break;
                  }
 
+                 /* Address out without select out, disconnect */
+                 if ((*tags & (CHAN_ADR_OUT)) != 0) {
+                     halt_device(unit, tags);
+                     break;
+                 }
+
                  /* Wait for Command out to drop */
                  if ((*tags & (CHAN_CMD_OUT)) != 0) {
                      log_device("printer wait cmd drop stat\n");
@@ -382,8 +443,8 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
                  *tags |= CHAN_OPR_IN;
 
-                 /* Wait for Service out to drop */
-                 if ((*tags & (CHAN_SRV_OUT)) == 0) {
+                 /* Wait for Service and command out to drop */
+                 if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) == 0) {
                      /* If no command, or check status, go back to idle */
                      if (ctx->cmd == 0 || (ctx->status & (SNS_UNITCHK|SNS_UNITEXP)) != 0) {
                          *tags &= ~(CHAN_OPR_IN);  /* Clear select out, oper in */
@@ -404,13 +465,6 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                          break;
                      }
 
-                     /* If select out has dropped, drop operator in if no data to send */
-                     if ((*tags & CHAN_HLD_OUT) == 0 && ctx->data_rdy == 0 && ctx->cmd != 0x4) {
-                         *tags &= ~(CHAN_OPR_IN);           /* Clear select out and in */
-                         ctx->selected = 0;
-                         ctx->addressed = 0;
-                     }
-
                      /* Wait for device to have some data to transmit */
                      ctx->state = STATE_OPR;
                      log_device("printer state done\n");
@@ -431,51 +485,10 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  *tags &= ~CHAN_SEL_OUT;
              }
 
-             /* If we get select out with address out, reselection */
-             if (ctx->selected == 0 &&
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) &&
-                (bus_out & 0xff) == ctx->addr) {
-                /* Device selected */
-                *tags &= ~(CHAN_SEL_OUT);              /* Clear select out and in */
-                *tags |= CHAN_STA_IN;                  /* Indicate busy status */
-                *bus_in = SNS_BSY;
-                ctx->selected = 1;
-                ctx->addressed = 1;
-                log_device("printer reselect\n");
-                break;
-             }
-
-             /* On Select channel, Select Out will not drop */
-             if (ctx->selected) {
              /* Catch halt I/O */
-                 if (*tags == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_OPR_IN) &&
-                      (bus_out & 0xff) == ctx->addr) {
-                      /* Halt I/O */
-                      /* Device selected */
-                      *tags &= ~(CHAN_OPR_IN);             /* Clear select out and in */
-                      ctx->data_end = 1;
-                      ctx->data_rdy = 0;
-                      ctx->selected = 0;
-                      log_device("printer Halt i/o\n");
-                      break;
-                 }
-
-                 /* Return status while waiting for Address out to drop */
-                 if (*tags == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_STA_IN)) {
-                    /* Device selected */
-                    *tags |= CHAN_STA_IN;                  /* Indicate busy status */
-                    *bus_in = SNS_BSY;
-                    break;
-                 }
-
-                 /* When select out drops, clear selected flag */
-                 if ((*tags == (CHAN_OPR_OUT|CHAN_HLD_OUT|CHAN_STA_IN) ||
-                      *tags == (CHAN_OPR_OUT|CHAN_STA_IN))) {
-                      *tags &= ~(CHAN_STA_IN);             /* Clear select out and in */
-                      ctx->selected = 0;
-                      log_device("printer deselected\n");
-                      break;
-                 }
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 halt_device(unit, tags);
+                 break;
              }
 
              /* If data ready, try and get/send it */
@@ -487,14 +500,7 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              /* If data end, tell CPU */
              if (ctx->data_end) {
                 log_device("printer Data end\n");
-                if (ctx->cmd == 0x4) {   /* If sense, end command */
-                    ctx->status = SNS_CHNEND|SNS_DEVEND;
-                }
-
-                if ((ctx->cmd & 07) == 1) { /* If write, print the line */
-                    add_event(unit, done_callback, 2000 * print_line(ctx), NULL, 0);
-                    ctx->status |= SNS_CHNEND;
-                }
+                finish_data(unit);
 
                 if ((ctx->status & SNS_CHNEND) != 0) {
                    ctx->state = STATE_DATA_END;
@@ -509,74 +515,88 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
     case STATE_REQ:   /* Data available and we are not talking on channel */
              log_device("printer Request\n");
-             if (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_REQ_IN) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_REQ_IN)) {
-                 /* Put our address on the bus */
-                 *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);        /* Clear select out and in */
-                 *tags |= CHAN_OPR_IN|CHAN_ADR_IN;            /* Put out device on request */
-                 *bus_in = ctx->addr | odd_parity[ctx->addr]; /* Put out our address */
-                 ctx->addressed = 1;
-                 log_device("printer Reselect\n");
-                 break;
-             }
-
-             if (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_OPR_IN|CHAN_ADR_IN) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_OPR_IN|CHAN_ADR_IN)) {
-                 /* Put our address on the bus */
-                 *tags &= ~(CHAN_SEL_OUT);                    /* Clear select out and in */
-                 *tags |= CHAN_OPR_IN|CHAN_ADR_IN;            /* Put out device on request */
-                 *bus_in = ctx->addr | odd_parity[ctx->addr]; /* Put out our address */
-                 ctx->request = 0;
-                 ctx->addressed = 1;
-                 log_device("printer Address\n");
-                 break;
-             }
-
-             /* Check if another device is being selected */
-             if (ctx->request && (
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_ADR_OUT|CHAN_REQ_IN) ||
-                *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_REQ_IN))) {
-                *tags &= ~(CHAN_REQ_IN);
-                ctx->request = 0;
-                log_device("printer other device\n");
-                break;
-             }
-
-             /* If we got bus, go and transfer */
-             if (ctx->addressed && (*tags & CHAN_CMD_OUT) != 0) {
-                 *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);  /* Clear select out and in */
-                 ctx->selected = 1;
-                 ctx->addressed = 0;
-                 if (ctx->data_end) {
-                     ctx->state = (ctx->status & SNS_DEVEND) ? STATE_END : STATE_DATA_END;
-                 } else {
-                     ctx->state = (ctx->cmd & 1) ? STATE_DATA_I : STATE_DATA_O;
+             /* If we got bus, wait for command out to drop, then go and transfer */
+             if (ctx->selected) {
+                 *tags &= ~(CHAN_SEL_OUT);
+                 if ((*tags & (CHAN_ADR_OUT)) != 0) {         /* Halt I/O */
+                     halt_device(unit, tags);
+                     break;
+                 }
+                 if ((*tags & CHAN_CMD_OUT) == 0) {
+                     if (ctx->data_end) {
+                         ctx->state = (ctx->status & SNS_DEVEND) ? STATE_END : STATE_DATA_END;
+                     } else {
+                         ctx->state = (ctx->cmd & 1) ? STATE_DATA_I : STATE_DATA_O;
+                     }
+                     log_device("printer selected\n");
                  }
-                 log_device("printer selected\n");
                  break;
              }
 
-             /* Put our address on the bus */
              if (ctx->addressed) {
-                 *tags &= ~(CHAN_SEL_OUT);                    /* Clear select out and in */
-                 *tags |= CHAN_OPR_IN|CHAN_ADR_IN;            /* Put out device on request */
+                 *tags &= ~(CHAN_SEL_OUT);
                  *bus_in = ctx->addr | odd_parity[ctx->addr]; /* Put out our address */
-                 if (ctx->request) {                          /* Drop request in */
-                    *tags &= ~CHAN_REQ_IN;
-                    ctx->request = 0;
+                 if ((*tags & (CHAN_ADR_OUT)) != 0) {         /* Halt I/O */
+                     halt_device(unit, tags);
+                     break;
+                 }
+                 if ((*tags & CHAN_CMD_OUT) != 0) {
+                     *tags &= ~(CHAN_ADR_IN);
+                     ctx->selected = 1;
+                     ctx->addressed = 0;
                  }
                  log_device("printer Address\n");
                  break;
              }
 
-             /* See if another device got it. */
-             if ((*tags & (CHAN_OPR_IN|CHAN_STA_IN)) != 0) {
+             /* See if another device got it, or stacked status is held off. */
+             if ((*tags & (CHAN_OPR_IN|CHAN_STA_IN)) != 0 ||
+                 (ctx->stacked && (*tags & CHAN_SUP_OUT) != 0)) {
                  /* Drop request out until channel free again */
                  if (ctx->request) {
                     *tags &= ~CHAN_REQ_IN;
                     ctx->request = 0;
                     log_device("printer Other device\n");
                  }
+                 if (!ctx->stacked || (*tags & (CHAN_OPR_IN|CHAN_STA_IN|CHAN_ADR_OUT)) != (CHAN_ADR_OUT)) {
+                     break;
+                 }
+             }
+
+             if ((*tags & (CHAN_SEL_OUT|CHAN_ADR_OUT)) == (CHAN_SEL_OUT|CHAN_ADR_OUT)) {
+                 /* Drop request while a device is being selected */
+                 if (ctx->request) {
+                     *tags &= ~(CHAN_REQ_IN);
+                     ctx->request = 0;
+                 }
+                 if ((bus_out & 0xff) != ctx->addr) {
+                     log_device("printer other device\n");
+                     break;
+                 }
+                 *tags &= ~(CHAN_SEL_OUT);
+                 ctx->addressed = 1;
+                 if (ctx->data_end) {                         /* Channel wants status */
+                     if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0)
+                         ctx->sense |= SENSE_BUSCHK;
+                     *tags |= CHAN_OPR_IN;
+                     ctx->state = STATE_STACK_SEL;
+                     log_device("printer stack selected\n");
+                 } else {                                     /* In middle of transfer */
+                     *tags |= CHAN_STA_IN;
+                     *bus_in = SNS_BSY | odd_parity[SNS_BSY];
+                     ctx->state = STATE_BUSY;
+                 }
+                 break;
+             }
+
+             if (ctx->request && (*tags & (CHAN_SEL_OUT)) != 0) {
+                 /* Put our address on the bus */
+                 *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);        /* Clear select out and in */
+                 *tags |= CHAN_OPR_IN|CHAN_ADR_IN;            /* Put out device on request */
+                 *bus_in = ctx->addr | odd_parity[ctx->addr]; /* Put out our address */
+                 ctx->addressed = 1;
+                 ctx->request = 0;
+                 log_device("printer Reselect\n");
                  break;
              }
 
@@ -585,10 +605,23 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              ctx->request = 1;
              break;
 
-    case STATE_DATA_I:    /* Request data from Channel, wait ready */
-             /* If we are not connected, go request bus */
-             if (ctx->selected == 0) {
+    case STATE_BUSY:      /* Short busy, wait for select out to drop */
+             *tags &= ~(CHAN_SEL_OUT);
+             *bus_in = SNS_BSY | odd_parity[SNS_BSY];
+             if ((*tags & CHAN_HLD_OUT) == 0) {
+                 *tags &= ~(CHAN_STA_IN);
+                 ctx->addressed = 0;
                  ctx->state = STATE_REQ;
+                 if ((*tags & CHAN_ADR_OUT) != 0) {           /* Halt I/O */
+                     halt_device(unit, tags);
+                 }
+             }
+             break;
+
+    case STATE_DATA_I:    /* Request data from Channel, wait ready */
+             /* Catch halt I/O */
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 halt_device(unit, tags);
                  break;
              }
 
@@ -614,17 +647,17 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                       ctx->col++;
                       ctx->cnt++;
                       ctx->data_rdy = 1;
-                      if (ctx->cnt == 3) {                /* Check if we got 4 bytes */
+                      if (ctx->col == 120) {
+                         ctx->data_rdy = 0;
+                         ctx->data_end = 1;
+                      } else if (ctx->cnt == 3) {         /* Check if we got 3 bytes */
                          ctx->cnt = 0;                    /* Allow other devices to grab bus */
-                         if ((*tags & (CHAN_SEL_OUT)) == 0) {
+                         if ((*tags & (CHAN_HLD_OUT)) == 0) {
                              *tags &= ~(CHAN_OPR_IN);     /* Clear operator in */
                              ctx->selected = 0;           /* Drop selected flag */
+                             ctx->state = STATE_REQ;
                          }
                       }
-                      if (ctx->col == 120) {
-                         ctx->data_rdy = 0;
-                         ctx->data_end = 1;
-                      }
                   }
                   break;
              }
@@ -648,9 +681,9 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
 
     case STATE_DATA_O:    /* Request to send data to channel */
              log_device("Printer Data output %02x %d\n", ctx->data, ctx->selected);
-             /* If we are not connected, go request bus */
-             if (ctx->selected == 0) {
-                 ctx->state = STATE_REQ;
+             /* Catch halt I/O */
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 halt_device(unit, tags);
                  break;
              }
 
@@ -676,84 +709,45 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              break;
 
     case STATE_DATA_END:  /* Send channel end to channel indicating end of data */
-             if (ctx->selected == 0) {  /* Request bus if we don't have it */
-                 ctx->state = STATE_REQ;
-                 break;
-             }
-
-             *bus_in = ctx->status | odd_parity[ctx->status];
-             /* Mark channel still in use */
+    case STATE_END:       /* Post device end to channel */
              *tags &= ~(CHAN_SEL_OUT);  /* Clear select out and in */
-             *tags |= CHAN_OPR_IN;
-
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == (CHAN_SRV_OUT)) {
-                 break;
-             }
 
-             if ((*tags & (CHAN_SRV_OUT)) == 0) {
-                 *tags |= CHAN_OPR_IN|CHAN_STA_IN;
-                 log_device("printer End channel status %02x %02x\n", ctx->status, ctx->cmd);
-                 break;
-             }
-
-             /* Service out indicates status was excepted. If Suppress out, then command chaining */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
-                 if ((*tags & CHAN_HLD_OUT) == 0) {
-                      ctx->selected = 0;
-                 }
-                 *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);  /* Clear select out and in */
-                 /* If Command out, stack the status */
-                 if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                     ctx->stacked = 1;
-                 }
-                 if ((*tags & (CHAN_SRV_OUT)) != 0) {
-                     ctx->status &= ~SNS_CHNEND;
-                 }
-                 ctx->state = STATE_WAIT;              /* Wait for device to be done */
-                 log_device("printer Accepted data_end\n");
-                 break;
+             if (ctx->state == STATE_END && (*tags & CHAN_STA_IN) == 0) {
+                 end_status(ctx);
              }
-             break;
 
-    case STATE_END:   /* Post device end to channel */
-             if (ctx->selected == 0) {  /* Request bus if we don't have it */
-                 ctx->state = STATE_REQ;
-                 break;
-             }
-
-             /* Mark channel still in use */
-             *tags &= ~(CHAN_SEL_OUT);  /* Clear select out and in */
-             *tags |= CHAN_OPR_IN;
-
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == (CHAN_SRV_OUT)) {
+             /* Catch halt I/O */
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 halt_device(unit, tags);
                  break;
              }
 
-             if (ctx->busy_flag) {
-                ctx->status |= SNS_CTLEND;
-             }
-             if (ctx->sense != 0 && ctx->cmd != 0x4) {
-                ctx->status |= SNS_UNITCHK;
-             }
-
              *bus_in = ctx->status | odd_parity[ctx->status];
 
-             /* Wait for Service out to drop */
-             if ((*tags & (CHAN_SRV_OUT|CHAN_STA_IN)) == 0) {
-                 log_device("printer End status %02x %02x\n", ctx->status, ctx->cmd);
-                 *tags |= CHAN_STA_IN;
+             /* Wait for Service and command out to drop */
+             if ((*tags & CHAN_STA_IN) == 0) {
+                 if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) == 0) {
+                     *tags |= CHAN_STA_IN;
+                     log_device("printer End status %02x %02x\n", ctx->status, ctx->cmd);
+                 }
                  break;
              }
 
              /* Service out indicates status was excepted. If Suppress out, then command chaining */
              if ((*tags & (CHAN_SRV_OUT)) != 0) {
                  *tags &= ~(CHAN_OPR_IN|CHAN_STA_IN);  /* Clear select out and in */
-                 log_device("printer Accepted end\n");
                  ctx->selected = 0;
-                 ctx->busy_flag = 0;
-                 ctx->state = STATE_IDLE;              /* All done, back to idle state */
+                 ctx->stacked = 0;
+                 if (ctx->state == STATE_END) {
+                     ctx->status = 0;
+                     ctx->busy_flag = 0;
+                     ctx->state = STATE_IDLE;          /* All done, back to idle state */
+                     log_device("printer Accepted end\n");
+                 } else {
+                     ctx->status &= ~SNS_CHNEND;
+                     ctx->state = STATE_WAIT;          /* Wait for device to be done */
+                     log_device("printer Accepted data_end\n");
+                 }
                  break;
              }
 
@@ -763,43 +757,14 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                   log_device("printer Stacked\n");
                   ctx->selected = 0;
                   ctx->stacked = 1;
-                  ctx->state = STATE_STACK;            /* Stack status */
+                  ctx->state = STATE_REQ;              /* Stack status */
                   break;
              }
-
-             log_device("printer End status ready\n");
-             break;
-
-    case STATE_STACK:
-             /* Wait until Channels asks for us */
-             if (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_SUP_OUT) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_REQ_IN) ||
-                 *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_REQ_IN|CHAN_SUP_OUT)) {
-                  if ((bus_out & 0xff) == ctx->addr) {
-                      /* Device selected */
-                      if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0)
-                          ctx->sense |= SENSE_BUSCHK;
-                      *tags &= ~(CHAN_SEL_OUT);      /* Clear select out and in */
-                      *tags |= CHAN_OPR_IN;
-                      ctx->state = STATE_STACK_SEL;
-                      ctx->addressed = 1;
-                      log_device("printer stack selected\n");
-                  }
-             }
-
-             /* If stacked and cmd done, try to return status */
-             if (ctx->stacked && ctx->feed_done && *tags == (CHAN_OPR_OUT)) {
-                 ctx->state = STATE_REQ;
-             }
              break;
 
     case STATE_STACK_SEL:
              /* If we are selected, drop select out to rest of channel */
-             if (ctx->addressed || ctx->selected) {
-                 *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-                 *tags |= CHAN_OPR_IN;
-             }
+             *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
 
              /* When address out drops put our address on bus in */
              if (ctx->addressed && (*tags & (CHAN_ADR_OUT|CHAN_CMD_OUT)) == 0) {
@@ -815,15 +780,26 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              if (ctx->selected) {
                   *bus_in = ctx->addr | odd_parity[ctx->addr];
 
+                 /* Catch halt I/O */
+                 if ((*tags & CHAN_ADR_OUT) != 0) {
+                      halt_device(unit, tags);
+                      break;
+                 }
+
                  /* Can now drop address in */
                  if ((*tags & (CHAN_CMD_OUT)) != 0) {
                       log_device("printer stack command %02x\n", bus_out);
                       ctx->state = STATE_STACK_CMD;
+                      end_status(ctx);
                       *tags &= ~(CHAN_SEL_OUT|CHAN_ADR_IN);                 /* Clear address in */
                       if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
-                          ctx->status = (SNS_CHNEND|SNS_DEVEND|SNS_UNITCHK);
+                          ctx->status |= SNS_UNITCHK;
                           ctx->sense |= SENSE_BUSCHK;
                       }
+                      /* New command can't be done until status is accepted */
+                      if ((bus_out & 0xff) != 0) {
+                          ctx->status |= SNS_BSY;
+                      }
                  }
              }
              break;
@@ -831,12 +807,11 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STACK_CMD:
              *bus_in = ctx->status | odd_parity[ctx->status];   /* Set initial status */
              *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-             *tags |= CHAN_OPR_IN;
 
              /* Wait for Command out to drop */
              /* On MPX channel select out will drop, along with command */
-             if ((*tags == (CHAN_CMD_OUT)) == 0) {
-                  *tags |= CHAN_OPR_IN|CHAN_STA_IN;     /* Wait for acceptance of status */
+             if ((*tags & (CHAN_CMD_OUT)) == 0) {
+                  *tags |= CHAN_STA_IN;     /* Wait for acceptance of status */
                   ctx->state = STATE_STACK_STA;
                   log_device("printer stack init stat %02x\n", ctx->status);
              }
@@ -845,56 +820,41 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
     case STATE_STACK_STA:
              *bus_in = ctx->status | odd_parity[ctx->status];   /* Set initial status */
              *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-             *tags |= CHAN_OPR_IN;
+
+             /* Catch halt I/O */
+             if ((*tags & CHAN_ADR_OUT) != 0) {
+                 ctx->status &= ~SNS_BSY;
+                 halt_device(unit, tags);
+                 break;
+             }
 
             /* Wait for Service out to raise, status accepted */
              if ((*tags & (CHAN_SRV_OUT|CHAN_CMD_OUT)) != 0) {
-                 *tags &= ~(CHAN_STA_IN|CHAN_SEL_OUT);
-                 if ((*tags & (CHAN_CMD_OUT)) != 0) {
-                     ctx->stacked = 1;
-                 }
+                 *tags &= ~(CHAN_STA_IN|CHAN_OPR_IN);
+                 ctx->selected = 0;
+                 ctx->status &= ~SNS_BSY;
+                 log_device("printer stack init stat %02x done\n", ctx->status);
                  if ((*tags & (CHAN_SRV_OUT)) != 0) {
                      ctx->stacked = 0;
-                     ctx->status &= ~SNS_CHNEND;
-                 }
-                 ctx->state = STATE_STACK_HLD;
-                 log_device("printer stack init stat %02x done\n", ctx->status);
-                 break;
-             }
-             break;
-
-    case STATE_STACK_HLD:
-             /* If we are selected, drop select out to rest of channel */
-             *tags &= ~(CHAN_SEL_OUT);  /* Clear select in */
-             *tags |= CHAN_OPR_IN;
-
-             /* Wait for Service/command out to drop */
-             if ((*tags & (CHAN_CMD_OUT|CHAN_SRV_OUT)) == 0) {
-                 if (ctx->stacked) {
-                     if (ctx->feed_done) {
-                        ctx->state = STATE_STACK;
+                     if ((ctx->status & SNS_DEVEND) != 0) {
+                         ctx->status = 0;
+                         ctx->busy_flag = 0;
+                         ctx->state = STATE_IDLE;
                      } else {
-                        ctx->state = STATE_WAIT;
+                         ctx->status &= ~SNS_CHNEND;
+                         ctx->state = STATE_WAIT;
                      }
                  } else {
-                     ctx->state = STATE_IDLE;
+                     ctx->stacked = 1;
+                     ctx->state = STATE_REQ;
                  }
-                 *tags &= ~CHAN_OPR_IN;
-                 ctx->selected = 0;
-                 log_device("printer stack done\n");
              }
              break;
 
     case STATE_WAIT:
              /* If we get select out with address out, reselection */
-             if (!ctx->selected &&
-                 (*tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT) ||
-                  *tags == (CHAN_OPR_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_SUP_OUT|CHAN_ADR_OUT)) &&
+             if ((*tags & (CHAN_SEL_OUT|CHAN_ADR_OUT|CHAN_OPR_IN)) == (CHAN_SEL_OUT|CHAN_ADR_OUT) &&
                  (bus_out & 0xff) == ctx->addr) {
-                /* Device selected */
-                *tags |= CHAN_STA_IN;
-                *tags &= ~(CHAN_SEL_OUT);                 /* Clear select out and in */
-                *bus_in = 0x100 | SNS_SMS | SNS_BSY;
                 ctx->busy_flag = 1;
                 ctx->addressed = 1;
                 log_device("wait select attempt\n");
@@ -903,23 +863,25 @@ model1443_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
              /* If selected clear status in when select out drops */
              if (ctx->addressed) {
                 /* Device selected */
-                *tags &= ~(CHAN_SEL_OUT);          /* Clear status in */
+                *tags &= ~(CHAN_SEL_OUT);
                 *tags |= CHAN_STA_IN;
                 *bus_in = 0x100 | SNS_SMS | SNS_BSY;
                 log_device("wait selected\n");
 
                 if ((*tags & CHAN_HLD_OUT) == 0) {
                    /* Device selected */
-                   *tags &= ~(CHAN_SEL_OUT|CHAN_STA_IN);          /* Clear status in */
+                   *tags &= ~(CHAN_STA_IN);          /* Clear status in */
                    ctx->addressed = 0;
                    log_device("wait status received\n");
                 }
+                break;
              }
 
              if (ctx->feed_done) {
                  log_device("printer feed done\n");
                  ctx->status |= SNS_DEVEND;
-                 ctx->state = STATE_END;
+                 ctx->data_end = 1;
+                 ctx->state = STATE_REQ;
              }
              break;
 
-- 
2.43.0


From 02453c69bb8454b13069999745b5c01b9704ccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 55/79] fix: 1442 reset leaves events, stacked status and
 request behind

---
 src/model1442/model1442.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index d316182..1d36df4 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -345,9 +345,16 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
         if (unit->selected) {
            *tags &= ~(CHAN_OPR_IN|CHAN_ADR_IN|CHAN_SRV_IN|CHAN_STA_IN);
         }
+        if (unit->request || unit->stacked) {
+           *tags &= ~(CHAN_REQ_IN);
+        }
         log_device("1442: %03x reset\n",unit->addr);
+        cancel_event(unit, &read_callback);
+        cancel_event(unit, &write_callback);
+        cancel_event(unit, &feed_callback);
         unit->selected = 0;
         unit->request = 0;
+        unit->stacked = 0;
         ctx->state = STATE_IDLE;
         ctx->status = 0;
         ctx->sense = 0;
-- 
2.43.0


From 3c8d52a5873e733f3a2542cb50550dc13b33d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 56/79] fix: configuration words, addresses and strings ran
 over their buffers or past the end of the line

---
 src/conf.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index 9449ad3..e7c5cd6 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -113,7 +113,7 @@ get_model(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
+    while (len < (int)sizeof(opt->opt) - 1 && (isalnum(*line_ptr) || *line_ptr == '-' || *line_ptr == '/')) {
         /* Start of -#, save in temp1 */
         if (*line_ptr == '-' && (flags & 1) == 0) {
            flags |= 1;
@@ -133,7 +133,6 @@ get_model(struct _option *opt)
             len++;
         } else {
             fprintf(stderr, "Invalid character in option\n");
-            free(opt);
             return 0;
         }
         line_ptr++;
@@ -187,9 +186,10 @@ get_addr(struct _option *opt)
         return 0;
     p = &temp1[0];
     len = 0;
-    while (len < 20 && isxdigit(*line_ptr)) {
+    while (len < (int)sizeof(temp1) - 1 && isxdigit(*line_ptr)) {
        *p = toupper(*line_ptr);
        p++;
+       len++;
        line_ptr++;
     }
     *p = '\0';
@@ -230,11 +230,15 @@ get_string(struct _option *opt)
         quote = 1;
         line_ptr++;
     }
-    while (len < 1024) {
+    while (len < (int)sizeof(opt->string) - 1) {
+       /* Never run past end of line, even if closing quote is missing */
+       if (*line_ptr == '\n' || *line_ptr == '\0') {
+           break;
+       }
        if (*line_ptr == '"' && quote) {
            line_ptr++;
            if (*line_ptr == '"') {
-               *p = '"';
+               *p++ = '"';
                line_ptr++;
                len++;
            } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
@@ -275,7 +279,7 @@ get_option(struct _option *opt)
     /* Grab either a word or a number */
     p = &opt->opt[0];
     len = 0;
-    while (len < 20 && (isalnum(*line_ptr) || *line_ptr == '-')) {
+    while (len < (int)sizeof(opt->opt) - 1 && (isalnum(*line_ptr) || *line_ptr == '-')) {
        *p = toupper(*line_ptr);
        p++;
        len++;
-- 
2.43.0


From 84b71da899cb1ea0202974a6690f32744229fae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 57/79] fix: model letter and numbers of a configuration line
 carried over to the following lines

---
 src/conf.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/conf.c b/src/conf.c
index e7c5cd6..efc760e 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -104,6 +104,13 @@ get_model(struct _option *opt)
     char            temp1[20];
     char            temp2[20];
     int             flags = 0;
+
+    /* Nothing carries over from the previous line */
+    opt->opt[0] = '\0';
+    opt->flags = 0;
+    opt->model = '\0';
+    opt->dash_num = 0;
+    opt->slash_num = 0;
     /* Skip leading space */
     while(isspace(*line_ptr))
         line_ptr++;
-- 
2.43.0


From 40ef5258e70f8fa8caf4117075f0238e31b03b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 58/79] fix: comma between configuration options was not
 accepted, loglevel never ended on it

---
 src/conf.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/conf.c b/src/conf.c
index efc760e..12ccf36 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -248,12 +248,12 @@ get_string(struct _option *opt)
                *p++ = '"';
                line_ptr++;
                len++;
-           } else if (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0') {
+           } else if (isspace(*line_ptr) || *line_ptr == ',' || *line_ptr == '\0') {
                *p = '\0';
                return 1;
            }
        } else {
-           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == '\n' || *line_ptr == '\0')) {
+           if (quote == 0 && (isspace(*line_ptr) || *line_ptr == ',' || *line_ptr == '\0')) {
                *p = '\0';
                return 1;
            }
@@ -277,8 +277,8 @@ get_option(struct _option *opt)
     opt->opt[0] = '\0';
     opt->string[0] = '\0';
     opt->flags = 0;
-    /* Skip leading space */
-    while(isspace(*line_ptr))
+    /* Skip leading space, options can also be separated by a comma */
+    while(isspace(*line_ptr) || *line_ptr == ',')
         line_ptr++;
     /* If comment or end of line, we got nothing */
     if (*line_ptr == '#' || *line_ptr == '\n' || *line_ptr == '\0')
@@ -292,6 +292,10 @@ get_option(struct _option *opt)
        len++;
        line_ptr++;
     }
+    /* Anything else can't be an option, hand it over to be rejected */
+    if (len == 0 && *line_ptr != '=') {
+       *p++ = *line_ptr++;
+    }
     *p = '\0';
     /* Check if we have equals sign */
     if (*line_ptr == '=') {
-- 
2.43.0


From 445548c3c71b156ebdfac57f7b9d82ab8d47367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 59/79] fix: option with a missing or invalid choice was taken
 as a valid one

---
 src/conf.c                | 2 +-
 src/model2415/model2415.c | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/conf.c b/src/conf.c
index 12ccf36..3c87ad8 100644
--- a/src/conf.c
+++ b/src/conf.c
@@ -338,7 +338,7 @@ get_index(struct _option *opt, char *list[])
 
     if (opt->string[0] == '\0') {
        fprintf(stderr, "Option %s requires a value\n", opt->opt);
-       return 0;
+       return -1;
     }
 
     for (i = 0; list[i] != NULL; i++) {
diff --git a/src/model2415/model2415.c b/src/model2415/model2415.c
index 5f2ff55..a6bcecb 100644
--- a/src/model2415/model2415.c
+++ b/src/model2415/model2415.c
@@ -1377,6 +1377,12 @@ model2415_create(struct _option *opt)
                    ring = 1;
                } else if (strcmp(opts.opt, "FORMAT") == 0) {
                    fmt = get_index(&opts, tape_format_type);
+                   if (fmt < 0) {
+                       free(file);
+                       free(tape->tape[i]);
+                       tape->tape[i] = NULL;
+                       return 0;
+                   }
                } else if (strcmp(opts.opt, "800") == 0) {
                    den = 0;
                } else if (strcmp(opts.opt, "1600") == 0) {
-- 
2.43.0


From 84f180a1043cec4859d243ac6d1461bbb128dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 60/79] fix: device on a channel that can't exist was stored
 behind the channel table

---
 src/device/device.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/device/device.c b/src/device/device.c
index c462dbc..c06abaf 100644
--- a/src/device/device.c
+++ b/src/device/device.c
@@ -122,6 +122,11 @@ add_chan(struct _device *dev, uint16_t addr)
 
       dev->addr = addr;
       dev->next = NULL;
+      /* Ignore channels that can't exist */
+      if (ch >= (sizeof(chan)/sizeof(struct _device *))) {
+          log_warn("No channel for device %03x\n", addr);
+          return;
+      }
       /* If channel empty, add it */
       if (chan[ch] == NULL) {
           chan[ch] = dev;
@@ -143,6 +148,9 @@ find_chan(uint16_t addr, uint16_t mask)
       uint16_t    ch = (addr >> 8) & 0x7;
       struct      _device *d;
 
+      if (ch >= (sizeof(chan)/sizeof(struct _device *))) {
+          return NULL;
+      }
       for (d = chan[ch]; d != NULL; d = d->next) {
           if ((d->addr & mask) == (addr & mask))
               return d;
@@ -160,7 +168,7 @@ del_chan(struct _device *dev, uint16_t addr)
       struct   _device *d;
 
       /* If channel empty, nothing to do. */
-      if (chan[ch] == NULL) {
+      if (ch >= (sizeof(chan)/sizeof(struct _device *)) || chan[ch] == NULL) {
           return;
       }
       /* Check if at head */
-- 
2.43.0


From 61fdd2640c0067a07222c27d6416fe2bbe5894c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:25 +0000
Subject: [PATCH 61/79] fix: refused 1443 stayed in the list of devices after
 it was freed

---
 src/model1443/model1443.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model1443/model1443.c b/src/model1443/model1443.c
index e193dd4..3f9dccf 100644
--- a/src/model1443/model1443.c
+++ b/src/model1443/model1443.c
@@ -1067,6 +1067,7 @@ model1443_create(struct _option *opt)
                   lpr->row = 0;
                   if ((lpr->file_name = (char *)malloc(strlen(opts.string)+1)) == NULL) {
                       fclose(lpr->file);
+                      del_chan(dev1443, opt->addr);
                       free(lpr);
                       free(dev1443);
                       return 0;
@@ -1076,6 +1077,7 @@ model1443_create(struct _option *opt)
                }
            } else {
                fprintf(stderr, "Invalid option %s to 1443\n", opts.opt);
+               del_chan(dev1443, opt->addr);
                free(lpr);
                free(dev1443);
                return 0;
-- 
2.43.0


From 6210ccade20b9500873b9531a36843750490dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 62/79] fix: 2050 selector keeps the device selected after
 incorrect length, so that device end replaces channel end

---
 src/model2050/cpu2050.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 64766ee..fec0100 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5835,6 +5835,10 @@ channel:
                                cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
                            }
                            if (cpu_2050.CHREQ[i] == 0 && (cpu_2050.FLAGS_REG[i] & 0xff) != 0) {
+                               /* Let go of the device, before it presents more status */
+                               if ((cpu_2050.TAGS_IN[ch] & CHAN_STA_IN) != 0) {
+                                   cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
+                               }
                                cpu_2050.BCHI |= BIT1 >> i;
                                break;
                            }
-- 
2.43.0


From 31d21787d564927828f2d1f87908d2483d29738b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 63/79] fix: 2050 multiplexer counts the end of output twice
 when a burst mode device is stopped

---
 src/model2050/cpu2050.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index fec0100..401c841 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4520,6 +4520,8 @@ channel:
 
     case 0x9c:  /*  RTA7  Routine A7 - QV270 */
                 log_trace("Routine A7\n");
+                /* The end of the output has been handled here */
+                cpu_2050.MPX_LST = 0;
                 /*  D0 <- (A7) (BR 6), CDA flag, Not inv addr, not prot ch */
                 /*  A3 <- (A7) BR 7, service in, not service out, prot ck, inv address CDA */
                 /*  A3 <- (A7) BR 7, service in, not service out, prot ck, inv address not CDA, input */
-- 
2.43.0


From 3fc0a5cf576b13f93074883c4d2d2c9be0f14500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:00 +0000
Subject: [PATCH 64/79] fix: 2050 multiplexer output: last byte of a connection
 not counted, chaining decided by the address

---
 src/model2050/cpu2050.c   | 30 ++++++++++++++++++++++++++----
 src/model2050/model2050.h |  1 +
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 401c841..57d50aa 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -4341,7 +4341,15 @@ channel:
                 if ((cpu_2050.break_in == 0 && cpu_2050.break_out == 0) || (cpu_2050.last_cycle && cpu_2050.CH == 3)) {
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                          log_trace("Status in\n");
-                         cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
+                         /* Output: count the byte sent first */
+                         if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60) {
+                             cpu_2050.MPX_SENT = 0;
+                             cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
+                         } else if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) {   /* Command Chain & SLI */
+                             cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
+                         } else {
+                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
+                         }
                          cpu_2050.break_in |= 8;
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
@@ -4369,6 +4377,7 @@ channel:
                     if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
                         log_trace("Oper drop\n");
                         if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60) {   /* output */
+                             cpu_2050.MPX_SENT = 0;
                              cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
                              cpu_2050.break_in |= 8;
                         } else {                                     /* Go save count */
@@ -4409,16 +4418,18 @@ channel:
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_SRV_IN) != 0) {
                          if ((cpu_2050.IOSTAT[3] & BIT0) == 0) {
                              cpu_2050.TAGS[0] |= CHAN_SRV_OUT;
+                             cpu_2050.MPX_SENT = 1;
                          }
                     }
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                         log_trace("Status in\n");
-                           if ((cpu_2050.BFR2 & 0x60) == 0x60) { /* Command Chain & SLI */
+                           if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) { /* Command Chain & SLI */
                                cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
                            } else {
                                cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
                            }
                         cpu_2050.break_in |= 8;
+                        break;
                     }
                     if ((cpu_2050.BRC == 7 && cpu_2050.MPX_LST) || cpu_2050.BRC == 5) {  /* End of output */
                         if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
@@ -4433,7 +4444,11 @@ channel:
                 if ((cpu_2050.break_in == 0 && cpu_2050.break_out == 0) || (cpu_2050.last_cycle && cpu_2050.CH == 3)) {
                     if ((cpu_2050.TAGS[0] & CHAN_SRV_OUT) == 0 && (cpu_2050.TAGS_IN[0] & CHAN_STA_IN) != 0) {
                         log_trace("Status in\n");
-                        if ((cpu_2050.BFR1 & 0x60) == 0x60) {   /* Command Chain & SLI */
+                        /* Output: count the last byte sent first */
+                        if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60 && cpu_2050.MPX_SENT) {
+                            cpu_2050.MPX_SENT = 0;
+                            cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
+                        } else if ((cpu_2050.LS[0x0e] & 0x60000000) == 0x60000000) {   /* Command Chain & SLI */
                             cpu_2050.ROUTINE[3] = 0x94;  /* RTA5 */
                         } else {
                             cpu_2050.ROUTINE[3] = 0x90;  /* RTA4 */
@@ -4462,7 +4477,13 @@ channel:
                         cpu_2050.break_in |= 8;
                     }
                     if ((cpu_2050.TAGS_IN[0] & (CHAN_OPR_IN)) == 0) {
-                        cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
+                        /* Output: count the byte sent before saving count and address */
+                        if ((cpu_2050.IOSTAT[3] & 0x70) == 0x60 && cpu_2050.MPX_SENT) {
+                            cpu_2050.MPX_SENT = 0;
+                            cpu_2050.ROUTINE[3] = 0x8c;  /* RTA3 */
+                        } else {
+                            cpu_2050.ROUTINE[3] = 0xb4;  /* RTB5 */
+                        }
                         cpu_2050.break_in |= 8;
                     }
                 }
@@ -4522,6 +4543,7 @@ channel:
                 log_trace("Routine A7\n");
                 /* The end of the output has been handled here */
                 cpu_2050.MPX_LST = 0;
+                cpu_2050.MPX_SENT = 0;
                 /*  D0 <- (A7) (BR 6), CDA flag, Not inv addr, not prot ch */
                 /*  A3 <- (A7) BR 7, service in, not service out, prot ck, inv address CDA */
                 /*  A3 <- (A7) BR 7, service in, not service out, prot ck, inv address not CDA, input */
diff --git a/src/model2050/model2050.h b/src/model2050/model2050.h
index 9b2d355..a5fc4a5 100644
--- a/src/model2050/model2050.h
+++ b/src/model2050/model2050.h
@@ -201,6 +201,7 @@ uint8_t     IBFULL;             /* IB full */
 uint8_t     polling[4];         /* Polling state */
 uint8_t     MPX_PCI;            /* MPX PCI request */
 uint8_t     MPX_LST;            /* Last word for MPX */
+uint8_t     MPX_SENT;           /* MPX sent a byte that is not counted yet */
 uint16_t    ROUTINE[4];         /* Current breaking routine */
 uint32_t    IOSTAT[4];          /* I/O Status register */
 
-- 
2.43.0


From 301d0d5be5c0927756eb7d3b828bf229b193ee48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 65/79] fix: 1442 asks for data while suppress out is up, but
 does not answer the select

---
 src/model1442/model1442.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 1d36df4..64505fa 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -390,7 +390,8 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             /* If we have request and suppress out is down, post request */
             if (unit->request || unit->stacked) {
                 log_device("1442: %03x port request\n",unit->addr);
-                if ((*tags & (CHAN_SUP_OUT|CHAN_ADR_OUT)) == 0 || ctx->data_rdy) {
+                if ((*tags & (CHAN_SUP_OUT|CHAN_ADR_OUT)) == 0 ||
+                                    (ctx->data_rdy && ctx->data_end == 0)) {
                     *tags |= CHAN_REQ_IN;
                 } else {
                     *tags &= ~CHAN_REQ_IN;
@@ -427,7 +428,10 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                  }
 
                  /* If no address out, see if we have request or stacked status */
-                 if ((*tags & CHAN_SUP_OUT) == 0 && (unit->request || unit->stacked)) {
+                 /* Suppress out only holds back status, not data */
+                 if (((*tags & CHAN_SUP_OUT) == 0 ||
+                                    (ctx->data_rdy && ctx->data_end == 0)) &&
+                     (unit->request || unit->stacked)) {
                      *tags &= ~(CHAN_SEL_OUT|CHAN_REQ_IN);
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
                      *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
-- 
2.43.0


From 9a5d3bf7f76dcf05ecbd14e2a5667ad58772dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 66/79] fix: 2050 multiplexer holds suppress out up while a
 unit sends data, hangs with interruptions masked

---
 src/model2050/cpu2050.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 57d50aa..8c7902b 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -5140,7 +5140,8 @@ channel:
     }
 
     /* Process MPX channel operations */
-    if (cpu_2050.IBFULL) {
+    /* Hold back status while buffer is full, but not data of a selected unit */
+    if (cpu_2050.IBFULL && (cpu_2050.TAGS_IN[0] & CHAN_OPR_IN) == 0) {
         cpu_2050.TAGS[0] |= CHAN_SUP_OUT;
     }
     cpu_2050.TAGS_IN[0] &= IN_TAGS;
-- 
2.43.0


From 5cba12df9888ee7e3c6a511467210fb5c4260b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:19 +0000
Subject: [PATCH 67/79] fix: 2030 multiplexer share cycle changes the XX
 latches of the interrupted microcode

---
 src/model2030/cpu2030.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 79c4275..0202c88 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -172,6 +172,7 @@ static int        u_wrap_mpx;
 static int        wrap_buf;
 static int        alu_chk;
 static int        mpx_share_pulse;
+static uint8_t    mpx_xx_save;           /* XX register over a multiplexer share cycle */
 static int        mpx_cmd_start;
 static int        mpx_start_sel;
 static int        mpx_supr_out_lch;
@@ -1469,6 +1470,7 @@ cycle_2030()
                  log_trace("Select dead cycle\n");
               } else if (mpx_share_pulse) {
                  cpu_2030.FWX = cpu_2030.WX;
+                 mpx_xx_save = cpu_2030.XX_REG;
                  cpu_2030.MPX_X6X7 = nextWX & 3;
                  if (cpu_2030.t_request == 0) {
                     cpu_2030.MPX_TAGS |= (CHAN_SEL_OUT|CHAN_HLD_OUT);
@@ -1959,6 +1961,7 @@ cycle_2030()
                        } else {
                            cpu_2030.mpx_ros_rest = 1;
                            cpu_2030.WX = cpu_2030.FWX;
+                           cpu_2030.XX_REG = mpx_xx_save;
                            log_mpxchn("MPX IRQ %d %d\n", sel_ros_req, cpu_2030.H_REG & BIT5);
                        }
                    }
-- 
2.43.0


From e06bdd655d2c9a833f57d360966d78e8750b0b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 68/79] fix: 2030 system reset keeps pending interruptions and
 channel latches, load then runs the diagnostic path or a stale interruption

---
 src/model2030/cpu2030.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 0202c88..8e1038d 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -405,6 +405,8 @@ cycle_2030()
       cpu_2030.S_REG = 0;
       cpu_2030.MC_REG = 0;
       cpu_2030.C_REG = 0;
+      cpu_2030.F_REG = 0;        /* Drop pending external interrupts */
+      timer_update = 0;
       cpu_2030.I_REG = 0x100;
       cpu_2030.J_REG = 0x100;
       cpu_2030.U_REG = 0x100;
@@ -435,14 +437,31 @@ cycle_2030()
           cpu_2030.LS[i] = odd_parity[cpu_2030.LS[i]&0xff] | (cpu_2030.LS[i]&0xff);
       /* Reset MPX channel */
       cpu_2030.MPX_TAGS = 0;
+      cpu_2030.FT &= ~(BIT2|BIT3|BIT7);  /* Clear operation, request and interrupt latch */
+      mpx_supr_out_lch = 0;
+      mpx_start_sel = 0;
+      mpx_cmd_start = 0;
       cpu_2030.MPX_TI = 0;
       for (dev = chan[0]; dev != NULL; dev = dev->next) {
            dev->bus_func(dev, &cpu_2030.MPX_TI, cpu_2030.O_REG, &cpu_2030.FI);
       }
       /* Reset selector channels */
+      sel_ros_req = 0;
       for (i = 0; i < 2; i++) {
          cpu_2030.SEL_TAGS[i] = 0;
          cpu_2030.SEL_TI[i] = 0;  /* Clear tags */
+         sel_poll_ctrl[i] = 0;
+         sel_chain_req[i] = 0;
+         sel_chain_det[i] = 0;
+         sel_cnt_rdy_not_zero[i] = 0;
+         sel_cnt_rdy_zero[i] = 0;
+         sel_chan_busy[i] = 0;
+         sel_intrp_lch[i] = 0;
+         sel_halt_io[i] = 0;
+         sel_gr_full[i] = 0;
+         sel_status_stop_cond[i] = 0;
+         cpu_2030.GE[i] = 0;
+         cpu_2030.GF[i] = 0;
          for (dev = chan[i+1]; dev != NULL; dev = dev->next) {
              dev->bus_func(dev, &cpu_2030.SEL_TI[i], cpu_2030.GO[i], &cpu_2030.GI[i]);
          }
-- 
2.43.0


From 4f9c435dd4c108a19ec78ff7a2cd434b23886144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:29 +0000
Subject: [PATCH 69/79] fix: 2050 load keeps pending channel interruptions, the
 loaded program gets them

---
 src/model2050/cpu2050.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 8c7902b..b39f6d3 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -704,6 +704,8 @@ cycle_2050()
         cpu_2050.init_bump_mem = 0;
         cpu_2050.bump_mem = 0;
         cpu_2050.mem_state = 0;
+        cpu_2050.BCHI = 0;         /* Drop pending channel interrupts */
+        cpu_2050.IBFULL = 0;
         LOAD = 0;
         INTR = 0;
         cpu_2050.wait = 0;
-- 
2.43.0


From 170ea9ff60eea320e2a7113883c8ee2658c58008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 70/79] fix: 1442 takes the byte a selector channel leaves on
 bus out for a command when it presents status by itself

---
 src/model1442/model1442.c | 5 +++++
 src/model1442/model1442.h | 1 +
 2 files changed, 6 insertions(+)

diff --git a/src/model1442/model1442.c b/src/model1442/model1442.c
index 64505fa..b494e6c 100644
--- a/src/model1442/model1442.c
+++ b/src/model1442/model1442.c
@@ -422,6 +422,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                         *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
                         ctx->state = STATE_INIT_SEL; /* Start initial select sequence */
                         unit->selected = 1;
+                        ctx->polled = 0;
                         log_device("1442: %03x selected\n",unit->addr);
                      }
                      break;
@@ -436,6 +437,7 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
                      *tags |= CHAN_OPR_IN;      /* Put our address on bus */
                      *bus_in = (unit->addr & 0xff) | odd_parity[unit->addr & 0xff];
                      unit->selected = 1;
+                     ctx->polled = 1;
                      ctx->state = STATE_INIT_SEL;
                      log_device("1442: %03x polling\n",unit->addr);
                  }
@@ -465,6 +467,9 @@ model1442_dev(struct _device *unit, uint16_t *tags, uint16_t bus_out, uint16_t *
             /* we get command out, process command */
             if ((*tags & (CHAN_CMD_OUT)) != 0) {
                 *tags &= ~(CHAN_ADR_IN);        /* Command out, drop addressin */
+                if (ctx->polled) {
+                    bus_out = 0x100;            /* Proceed, bus is not a command */
+                }
                 /* Check if parity error on bus */
                 if (((bus_out ^ odd_parity[bus_out & 0xff]) & 0x100) != 0) {
                     ctx->cmd = 0;
diff --git a/src/model1442/model1442.h b/src/model1442/model1442.h
index 4c35811..2cbfe91 100644
--- a/src/model1442/model1442.h
+++ b/src/model1442/model1442.h
@@ -45,6 +45,7 @@ struct _1442_context {
     int                    addressed;    /* Device has been addressed */
     int                    disconnect;        /* Disconnect device if in operation */
     int                    stacked;      /* Device has stack status */
+    int                    polled;       /* Selected at our own request */
     int                    busy;    /* If we returned fast busy */
     int                    sense;  /* Current sense value */
     int                    cmd;          /* Current command */
-- 
2.43.0


From 929f80dd1b4bbf803385d1799d27bd742d604640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 71/79] fix: 2050 selector channel does not chain when device
 end comes apart from channel end, and chains after unit check

---
 src/model2050/cpu2050.c | 45 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index b39f6d3..740369d 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -73,6 +73,7 @@ static int         timer_update;         /* Flag that timer update triggered */
 static uint32_t    SA;                   /* Address of last memory reference */
 static uint8_t     stop_mode = 0;        /* Issue stop at MANUAL->STOP instruction */
 static int         timer_irq = 0;        /* Timer Interrupt request */
+static uint8_t     chain_wait[4];        /* Selector waits for device end to chain */
 static int         dtc_latch = 0;
 static int         dtc1 = 0;             /* DTC1 option */
 static int         dtc2 = 0;             /* DTC2 option */
@@ -691,6 +692,7 @@ cycle_2050()
             cpu_2050.TAGS[i] = 0;
             cpu_2050.TAGS_IN[i] = 0;
             cpu_2050.polling[i] = 1;
+            chain_wait[i] = 0;
             cpu_2050.ROUTINE[i] = 0;
             cpu_2050.CHREQ[i] = 0;
             cpu_2050.CHPOS[i] = 0;
@@ -725,6 +727,7 @@ cycle_2050()
             cpu_2050.TAGS[i] = 0;
             cpu_2050.TAGS_IN[i] = 0;
             cpu_2050.polling[i] = 1;
+            chain_wait[i] = 0;
             cpu_2050.ROUTINE[i] = 0;
             cpu_2050.CHREQ[i] = 0;
             cpu_2050.CHPOS[i] = 0;
@@ -5856,6 +5859,10 @@ channel:
                            cpu_2050.CHCLK[i] = 0;
                            cpu_2050.IOSTAT[i] = 0;
                            if ((cpu_2050.TAGS_IN[ch] & CHAN_STA_IN) != 0) {
+                               /* Unusual status, do not chain */
+                               if ((cpu_2050.C_REG[i] & 0xb3000000) != 0) {
+                                    cpu_2050.FLAGS_REG[i] &= ~(CHAN_CC_FLAG << 8);
+                               }
                                if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) != 0) {
                                     cpu_2050.TAGS[ch] |= CHAN_SUP_OUT;
                                }
@@ -5887,6 +5894,8 @@ channel:
                                           cpu_2050.IOSTAT[i] |= BIT1;
                                       }
                                       cpu_2050.CHREQ[i] = BIT4;  /* Request CCW1 */
+                                 } else {
+                                      chain_wait[i] = 1;         /* Device end comes later */
                                  }
                                  if (inst) {
                                      cpu_2050.CHREQ[i] = BIT1;  /* Request interrupt */
@@ -5986,6 +5995,7 @@ channel:
                  log_trace("Device select\n");
                  cpu_2050.C_REG[i] &= 0x00ffffff;
                  cpu_2050.C_REG[i] |= ((uint32_t)cpu_2050.BUS_IN[ch] & 0xff) << 24;
+                 cpu_2050.BUS_OUT[ch] = 0x100;
                  cpu_2050.TAGS[ch] |= CHAN_CMD_OUT;
             }
             if ((cpu_2050.TAGS_IN[ch] & (CHAN_ADR_IN|CHAN_CMD_OUT)) == (CHAN_CMD_OUT)) {
@@ -6010,6 +6020,41 @@ channel:
                 cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT);
                 cpu_2050.C1[i] = 0;
             }
+        } else if (chain_wait[i]) {  /* Command chain, wait for device end */
+            if ((cpu_2050.TAGS_IN[ch] & CHAN_OPR_IN) == 0) {
+                cpu_2050.TAGS[ch] &= ~(CHAN_SEL_OUT|CHAN_HLD_OUT|CHAN_ADR_OUT|CHAN_CMD_OUT);
+                if ((cpu_2050.TAGS_IN[ch] & (CHAN_SRV_OUT|CHAN_STA_IN)) == 0) {
+                    cpu_2050.TAGS[ch] &= ~CHAN_SUP_OUT;
+                }
+                if ((cpu_2050.FLAGS_REG[i] & (CHAN_CC_FLAG << 8)) == 0) {
+                    /* Chain was halted */
+                    chain_wait[i] = 0;
+                    cpu_2050.BCHI |= BIT1 >> i;
+                } else if ((cpu_2050.TAGS_IN[ch] & CHAN_REQ_IN) != 0) {
+                    cpu_2050.TAGS[ch] |= CHAN_SEL_OUT|CHAN_HLD_OUT;
+                }
+            } else if ((cpu_2050.TAGS_IN[ch] & CHAN_ADR_IN) != 0) {
+                cpu_2050.BUS_OUT[ch] = 0x100;
+                cpu_2050.TAGS[ch] |= CHAN_CMD_OUT;
+            } else if ((cpu_2050.TAGS_IN[ch] & (CHAN_STA_IN|CHAN_SRV_OUT)) == CHAN_STA_IN) {
+                cpu_2050.TAGS[ch] &= ~(CHAN_CMD_OUT|CHAN_SEL_OUT|CHAN_HLD_OUT);
+                cpu_2050.TAGS[ch] |= CHAN_SRV_OUT;
+                cpu_2050.C_REG[i] &= 0x00ffffff;
+                cpu_2050.C_REG[i] |= ((uint32_t)cpu_2050.BUS_IN[ch] & 0xff) << 24;
+                if ((cpu_2050.BUS_IN[ch] & 0xb3) != 0) {
+                    chain_wait[i] = 0;
+                    cpu_2050.BCHI |= BIT1 >> i;    /* Request interrupt */
+                } else if ((cpu_2050.BUS_IN[ch] & SNS_DEVEND) != 0) {
+                    chain_wait[i] = 0;
+                    cpu_2050.TAGS[ch] |= CHAN_SUP_OUT;
+                    if ((cpu_2050.BUS_IN[ch] & SNS_SMS) != 0) {
+                        cpu_2050.IOSTAT[i] |= BIT1;
+                    }
+                    cpu_2050.CHREQ[i] = BIT4;      /* Request CCW1 */
+                }
+            } else {
+                cpu_2050.TAGS[ch] &= ~CHAN_CMD_OUT;
+            }
         } else {  /* Handle automatic channel functions */
             if ((cpu_2050.TAGS_IN[ch] & CHAN_OPR_IN) != 0 && cpu_2050.C_FULL[i] != 0 && cpu_2050.B_FULL[i] == 0 &&
                          (cpu_2050.OP_REG[i] & 0x6) != 0) {
-- 
2.43.0


From 5ebc696fa1dbfebdee80506dab0b6001612f68f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 72/79] fix: 2030 checks the address of the access being made,
 not of the one before, against the size of storage

---
 src/model2030/cpu2030.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model2030/cpu2030.c b/src/model2030/cpu2030.c
index 8e1038d..5550e69 100644
--- a/src/model2030/cpu2030.c
+++ b/src/model2030/cpu2030.c
@@ -1223,9 +1223,9 @@ cycle_2030()
                    switch (sal->CU) {
                    case 0:
                        /* Check if in range of memory */
-                       if (((0xFFFF ^ mem_max) & cpu_2030.MN_REG) != 0) {
+                       if (((0xFFFF ^ mem_max) & ((cpu_2030.M_REG & 0xff) << 8)) != 0) {
                             mem_wrap_req = 1;
-                            log_trace("Memory wrap %04x\n", cpu_2030.MN_REG);
+                            log_trace("Memory wrap %02x\n", cpu_2030.M_REG & 0xff);
                        }
                        if (i_wrap_cpu && sal->CM == 3 && (cpu_2030.H_REG & BIT6) == 0) {
                             mem_wrap_req = 1;
@@ -1256,6 +1256,9 @@ cycle_2030()
                            cpu_2030.M_REG = BIT0|BIT1|BIT2;
                            cpu_2030.M_REG |= odd_parity[cpu_2030.M_REG];
                            cpu_2030.store = LOCAL;
+                       } else if (((0xFFFF ^ mem_max) & ((cpu_2030.M_REG & 0xff) << 8)) != 0) {
+                            mem_wrap_req = 1;
+                            log_trace("Memory wrap %02x\n", cpu_2030.M_REG & 0xff);
                        }
                    }
                    if (!cpu_2030.allow_write && !mem_wrap_req) {
-- 
2.43.0


From 61e2ce0507aec0ef3e2e6f5f7c67e5ded0081a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 73/79] fix: 2050I has 512K of storage, not 256K twice

---
 src/model2050/cpu2050.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index 740369d..b2fcc41 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -865,7 +865,7 @@ cycle_2050()
                     }
                  }
              }
-             SA = cpu_2050.SAR_REG & 0x3ffff;
+             SA = cpu_2050.SAR_REG & 0x7ffff;
 
 
              if (cpu_2050.init_mem | cpu_2050.init_bump_mem) {
-- 
2.43.0


From 25df8458839c42ee687d381c5ebd2fd94de830bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:46 +0000
Subject: [PATCH 74/79] fix: 2050 SET STORAGE KEY of a block that does not
 exist overwrites the state of the processor

---
 src/model2050/cpu2050.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model2050/cpu2050.c b/src/model2050/cpu2050.c
index b2fcc41..655149b 100644
--- a/src/model2050/cpu2050.c
+++ b/src/model2050/cpu2050.c
@@ -3457,11 +3457,12 @@ cycle_2050()
             break;
 
     case 30: /* KEY->F */
-            cpu_2050.F_REG = cpu_2050.MP[cpu_2050.SAR_REG >> 11];
+            cpu_2050.F_REG = (cpu_2050.SAR_REG > mem_max) ? 0 : cpu_2050.MP[cpu_2050.SAR_REG >> 11];
             break;
 
     case 31: /* F->KEY */
-            cpu_2050.MP[cpu_2050.SAR_REG >> 11] = cpu_2050.F_REG;
+            if (cpu_2050.SAR_REG <= mem_max)
+                cpu_2050.MP[cpu_2050.SAR_REG >> 11] = cpu_2050.F_REG;
             break;
 
     case 32: /* 1->LSGNS */
-- 
2.43.0


From edfc1adf5011e061f686556ece601c0c7078011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 75/79] fix: 2314 heads 16 to 19 can be selected

The set head tag kept only four bits of the head number, so heads 16 to
19 of a 2314 were taken for heads 0 to 3.
---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index d75a1d0..a4d7e00 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -384,7 +384,7 @@ dasd_settags(struct _dasd_t *dasd, uint8_t ft, uint8_t fc)
     if (ft & BIT2) {    /* Set Head and sign */
         if (dasd->type == 3) {    /* 2314 */
             dasd->dir = (fc & BIT0) != 0;
-            dasd->head = (fc & 0xf);
+            dasd->head = (fc & 0x1f);
         } else {                  /* 2311 */
             if ((dasd->flags & 2) == 0) {
                dasd->head = (fc & 0xf);
-- 
2.43.0


From 32eed057cbd2f0a586239ba8053b203885cf5d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 76/79] fix: check bytes of key and data fields with odd length

The check bytes accumulate by the parity of the position, but after a
field of odd length they were read back in the wrong order, which gave a
data check on every such record.
---
 src/device/dasd.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index a4d7e00..bb8e365 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1108,10 +1108,10 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
          } else {
            switch (count - dasd->klen) {
            case 0:
-                  *data = dasd->ck_sum[0];
+                  *data = dasd->ck_sum[count & 1];
                   break;
            case 1:
-                  *data = dasd->ck_sum[1];
+                  *data = dasd->ck_sum[count & 1];
                   if (disk_type[type].dev_type != 0x14) {
                       dasd->state = DK_POS_GAP3;
                       dasd->count = 0;
@@ -1161,10 +1161,10 @@ dasd_read_byte(struct _dasd_t *dasd, uint8_t *data, uint8_t *am, uint8_t *ix)
          } else {
            switch (count - dasd->dlen) {
            case 0:
-                  *data = dasd->ck_sum[0];
+                  *data = dasd->ck_sum[count & 1];
                   break;
            case 1:
-                  *data = dasd->ck_sum[1];
+                  *data = dasd->ck_sum[count & 1];
                   dasd->rpos = dasd->tpos;
                   if (disk_type[type].dev_type != 0x14) {
                       dasd->state = DK_POS_AM;
-- 
2.43.0


From 752f841bab3458a5bbf2d976374c920acb3030dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 77/79] fix: format the last cylinder of a new disk pack

dasd_attach expects cyl + 1 cylinders; a new image lacked the last one.
---
 src/device/dasd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index bb8e365..521c8bb 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -1872,7 +1872,7 @@ dasd_format(struct _dasd_t * dasd, int flag) {
         return 1;
 
     /* Create empty disk with HA and R0 based on standard */
-    for (cyl = 0; cyl < disk_type[type].cyl; cyl++) {
+    for (cyl = 0; cyl <= disk_type[type].cyl; cyl++) {
         pos = 0;
         for (hd = 0; hd < disk_type[type].heads; hd++) {
             int cpos = pos;
-- 
2.43.0


From fb1dcca3ee0fce904eb6fd7489288908900cc454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 78/79] fix: follow the track layout while no byte is read

dasd_update counted other field and gap lengths than dasd_read_byte, so
after the head passed a field unread the position was lost.
---
 src/device/dasd.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/device/dasd.c b/src/device/dasd.c
index 521c8bb..a3c76c8 100644
--- a/src/device/dasd.c
+++ b/src/device/dasd.c
@@ -470,6 +470,7 @@ dasd_update(struct _dasd_t *dasd)
     int        rpos;         /* Position of head of current record */
     int        count;        /* Position counter */
     int        type  = dasd->type;
+    int        check = (disk_type[type].dev_type == 0x14) ? 4 : 2; /* Check bytes */
     int        i;
 
 #if 0
@@ -498,7 +499,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
 //log_disk("State=%s %d t=%d r=%d\n", disk_state[state], count, tpos, rpos);
          switch(state) {
          case DK_POS_INDEX:             /* At Index Mark */
-              if (count > disk_type[type].g4) {
+              if (count >= disk_type[type].g4) {
                   dasd->tstart = dasd->tsize * (dasd->head);
                   tpos = rpos = 0;
                   count = -1;
@@ -658,6 +659,16 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
               case 9:   /* Checksum 1 */
                       break;
               case 10:   /* Checksum 2 */
+                      if (disk_type[type].dev_type != 0x14) {
+                          state = DK_POS_GAP2;
+                          if (dasd->klen == 0)
+                              state = DK_POS_GAP3;
+                          count = -1;
+                      }
+                      break;
+              case 11:  /* 2314 Unit check */
+                      break;
+              case 12:  /* 2314 Bit count */
                       state = DK_POS_GAP2;
                       if (dasd->klen == 0)
                           state = DK_POS_GAP3;
@@ -686,7 +697,7 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                   dasd->ck_sum[count & 1] ^= da[count];
                   tpos++;
               }
-              if (count == (dasd->klen+2)) {
+              if (count == (dasd->klen + check - 1)) {
                   state = DK_POS_GAP3;
                   count = -1;
                   dasd->ck_sum[0] = 0xff;
@@ -712,8 +723,10 @@ log_disk("Update position %s %d\n", dasd->file_name, dasd->cpos);
                   dasd->ck_sum[count & 1] ^= da[count];
                   tpos++;
               }
-              if (count == (dasd->dlen + 2)) {
+              if (count == (dasd->dlen + 1)) {  /* Past last byte of record */
                   rpos = tpos;
+              }
+              if (count == (dasd->dlen + check - 1)) {
                   state = DK_POS_AM;
                   count = -1;
                   dasd->ck_sum[0] = 0xff;
-- 
2.43.0


From 51d848b0f4e5249bae93a61f4aa619f45c0cbd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:41 +0000
Subject: [PATCH 79/79] fix: no stray address mark when 2844 writes a byte

am was passed to dasd_write_byte uninitialised on the update path.
---
 src/model2844/model2844.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model2844/model2844.c b/src/model2844/model2844.c
index 3d402ec..68b5c74 100644
--- a/src/model2844/model2844.c
+++ b/src/model2844/model2844.c
@@ -130,7 +130,7 @@ step_2844(void *data)
         if (ctx->disk[i] == NULL)
             continue;
         if ((ctx->UR_REG & 0xf) == i && (ctx->FT & 0x81) == 0x81 && (ctx->FC & 0x04) != 0) {
-            uint8_t   data, am;
+            uint8_t   data, am = 0;
             ix = 0;
             if ((ctx->FC & 0x40) != 0) {
                 if (dasd_read_byte(ctx->disk[i], &data, &am, &ix)) {
-- 
2.43.0

