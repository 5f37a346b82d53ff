From 8f3014eb6391e05b2b5bd5ee9b770c14c1af6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 01/71] fix: phase offset array one element too small in
 bsdconv_unpack

strsep() leaves a terminating NULL after the last phase, which was stored one
element beyond the end of the array on every bsdconv_create().
---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 4dab01c..55d82f9 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -315,7 +315,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+1];
+	char *phase_off[i+2]; // one-based, plus the terminating NULL of the last split
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
-- 
2.43.0


From 436128901db809743f10535942b438474aef66d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 02/71] fix: conversion error across an input chunk boundary
 dropped valid bytes

When an undecodable sequence started in one input chunk and was rejected in a
later one, everything up to and including the rejected byte was discarded
instead of the first byte alone.
---
 src/libbsdconv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 55d82f9..9af7b91 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -667,7 +667,12 @@ void bsdconv(struct bsdconv_instance *ins){
 									RESET(ins->phase_index);
 									this_codec=THIS_CODEC(ins);
 
-									this_phase->bak=this_phase->curr;
+									//drop the first unconsumed byte only, it may be in an earlier datum than curr
+									this_phase->bak=prev_phase->data_head->next;
+									while(this_phase->bak->len<=this_phase->data_head->len && this_phase->bak!=this_phase->curr){
+										this_phase->bak=this_phase->bak->next;
+										this_phase->data_head->len=0;
+									}
 									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 									this_phase->bak=this_phase->curr=prev_phase->data_head;
 									this_phase->i=this_phase->data_head->len=this_phase->data_head->len+1;
-- 
2.43.0


From 77aa8157582823800f2688ee8d6fbd439f265816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 03/71] fix: input ending inside a sequence left stale state in
 source codecs

---
 modules/from/CP950-UDA.c |  6 +++++-
 modules/from/_JIS.c      | 13 +++++++++++--
 src/libbsdconv.c         |  6 +++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index fcc4f89..bd40937 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -13,10 +13,14 @@ struct my_s{
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r = malloc(sizeof(struct my_s));
 	THIS_CODEC(ins)->priv = r;
-	r->h = 0;
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->h = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	free(r);
diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 67ebb02..c339456 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -23,8 +23,6 @@ struct my_s{
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r = malloc(sizeof(struct my_s));
 	THIS_CODEC(ins)->priv = r;
-	r->mode = MODE_ASCII;
-	r->state = 0;
 	r->jis0201.desc="_JIS0201";
 	r->jis0208.desc="_JIS0208";
 	r->jis0212.desc="_JIS0212";
@@ -44,6 +42,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->mode = MODE_ASCII;
+	r->state = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	unloadcodec(&r->jis0201);
@@ -106,6 +110,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = CONTINUE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -125,6 +130,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -153,6 +159,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -166,11 +173,13 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						break;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
 				break;
 			default:
+				r->state = 0;
 				this_phase->state.status = DEADEND;
 				return;
 	}
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 9af7b91..c5d9e0c 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1009,7 +1009,11 @@ void bsdconv(struct bsdconv_instance *ins){
 				this_phase=THIS_PHASE(ins);
 				this_codec=THIS_CODEC(ins);
 				switch(this_phase->type){
-					case FROM:	goto from_deadend;
+					case FROM:
+						//input ended in the middle of a sequence, the codec has to forget the part it has seen
+						if((this_phase->flags & F_LOOPBACK) && !(this_phase->flags & F_MATCH) && this_codec->cbinit)
+							this_codec->cbinit(ins);
+						goto from_deadend;
 					case INTER:	goto inter_deadend;
 					case TO:	goto to_deadend;
 				}
-- 
2.43.0


From 1760b982443eb34b140859080335201c7f405b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 04/71] fix: from/BSDCONV freed buffers still referenced by its
 output

---
 modules/from/BSDCONV.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index efc8c03..f534e55 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -27,6 +27,7 @@ void cbinit(struct bsdconv_instance *ins){
 	t->data.len=0;
 	if(t->data.data)
 		free(t->data.data);
+	t->data.data=NULL;
 	t->data.next=NULL;
 	t->flag=F_CLEAR;
 }
@@ -42,7 +43,17 @@ void cbdestroy(struct bsdconv_instance *ins){
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
-	LISTCPY(ins, this_phase->data_tail, &t->data);
+	if(t->data.data==NULL)
+		return;
+	DATA_MALLOC(ins, this_phase->data_tail->next);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+	this_phase->data_tail->data=t->data.data;
+	this_phase->data_tail->len=t->data.len;
+	this_phase->data_tail->flags=F_FREE;
+	t->data.data=NULL;
+	t->data.len=0;
+	t->flag=F_CLEAR;
 }
 
 void cbconv(struct bsdconv_instance *ins){
-- 
2.43.0


From 9b86915f2da4dff41faaf82c2ae2568d41ceb396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:23 +0000
Subject: [PATCH 05/71] fix: from-codec flush after a partial match dropped the
 rest of the chunk

---
 modules/from/_UTF-8.c | 5 ++++-
 src/libbsdconv.c      | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 884ee9a..2a60741 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -54,7 +54,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 #define DEADEND() do{	\
 	t->status = 0;	\
-	t->lead_surrogate.ucs4 = 0;	\
+	if(!(this_phase->flags & F_MATCH)) /* a matched lead surrogate is left for cbflush() */	\
+		t->lead_surrogate.ucs4 = 0;	\
 	t->ucs.ucs4 = 0;	\
 	this_phase->state.status=DEADEND;	\
 	return;	\
@@ -157,6 +158,8 @@ void cbflush(struct bsdconv_instance *ins){
 		PASS(t->lead_surrogate);
 		t->lead_surrogate.ucs4 = 0;
 	}
+	t->status = 0;
+	t->ucs.ucs4 = 0;
 }
 
 void cbconv(struct bsdconv_instance *ins){
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index c5d9e0c..1ed8da9 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -642,13 +642,13 @@ void bsdconv(struct bsdconv_instance *ins){
 								if(this_phase->flags & F_MATCH){
 									if(this_phase->match_data){
 										LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
-
-										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-										this_phase->curr=prev_phase->data_head;
-										this_phase->i=this_phase->data_head->len;
 									}else if(this_codec->cbflush){
 										this_codec->cbflush(ins);
 									}
+									//resume right after the matched part
+									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+									this_phase->curr=prev_phase->data_head;
+									this_phase->i=this_phase->data_head->len;
 									this_phase->flags &= ~F_MATCH;
 									RESET(ins->phase_index);
 									goto phase_begin;
-- 
2.43.0


From f658e9ee90a50e7acf6a439bbcb7c955293f9346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:45 +0000
Subject: [PATCH 06/71] fix: from/_GB18030 skipped table matches when a
 sequence arrived in one chunk

---
 modules/from/_GB18030.c | 145 ++++++++++++++++++++--------------------
 1 file changed, 74 insertions(+), 71 deletions(-)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 5ad6a57..026e2e6 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -69,86 +69,89 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	ucs_t ucs;
 
-	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
-		d=UCP(this_phase->curr->data)[this_phase->i];
-		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
-		c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
-		next:
-		switch(t->status){
-			case 0:
-				if(t->status<data.len){
-					t->ucs=c[0]*10;
-					t->status=1;
-					goto next;
-				}
-				t->ucs=d*10;
+	//a sequence is entered with the bytes matched by the table, those are in state.data
+	if(!(this_phase->flags & F_LOOPBACK))
+		t->status=0;
+
+	//one byte at a time, the table may match the following ones
+	d=UCP(this_phase->curr->data)[this_phase->i];
+	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
+	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
+	next:
+	switch(t->status){
+		case 0:
+			if(t->status<data.len){
+				t->ucs=c[0]*10;
 				t->status=1;
-				break;
-			case 1:
-				if(t->status<data.len){
-					t->ucs+=c[1];
-					t->ucs*=126;
-					t->status=2;
-					goto next;
-				}
-				t->ucs+=d;
+				goto next;
+			}
+			t->ucs=d*10;
+			t->status=1;
+			break;
+		case 1:
+			if(t->status<data.len){
+				t->ucs+=c[1];
 				t->ucs*=126;
 				t->status=2;
-				break;
-			case 2:
-				if(t->status<data.len){
-					t->ucs+=c[2];
-					t->ucs*=10;
-					t->status=3;
-					goto next;
-				}
-				t->ucs+=d;
+				goto next;
+			}
+			t->ucs+=d;
+			t->ucs*=126;
+			t->status=2;
+			break;
+		case 2:
+			if(t->status<data.len){
+				t->ucs+=c[2];
 				t->ucs*=10;
 				t->status=3;
-				break;
-			case 3:
-				if(t->status<data.len){
-					t->ucs+=c[3];
-					t->status=0;
-					goto next;
-				}
-				t->ucs+=d;
+				goto next;
+			}
+			t->ucs+=d;
+			t->ucs*=10;
+			t->status=3;
+			break;
+		case 3:
+			if(t->status<data.len){
+				t->ucs+=c[3];
 				t->status=0;
-				if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-					DEADEND();
-				}else while (max >= min) {
-					mid = (min + max) / 2;
-					if (t->ucs > gb18030_table[mid].end)
-						min = mid + 1;
-					else if (t->ucs < gb18030_table[mid].beg)
-						max = mid - 1;
-					else{
-						break;
-					}
+				goto next;
+			}
+			t->ucs+=d;
+			t->status=0;
+			if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
+				DEADEND();
+			}else while (max >= min) {
+				mid = (min + max) / 2;
+				if (t->ucs > gb18030_table[mid].end)
+					min = mid + 1;
+				else if (t->ucs < gb18030_table[mid].beg)
+					max = mid - 1;
+				else{
+					break;
 				}
-				if(gb18030_table[mid].beg<=t->ucs && t->ucs<=gb18030_table[mid].end){
-					ucs.ucs4=htobe32(gb18030_table[mid].off + (t->ucs - gb18030_table[mid].beg));
-					for(i=0;ucs.byte[i]==0 && i<4;++i);
-					DATA_MALLOC(ins, this_phase->data_tail->next);
-					this_phase->data_tail=this_phase->data_tail->next;
-					this_phase->data_tail->next=NULL;
-					this_phase->data_tail->len=5 - i;
-					this_phase->data_tail->data=c=malloc(5 - i);
-					this_phase->data_tail->flags=F_FREE;
-					this_phase->state.status=NEXTPHASE;
-					*c=0x01;
-					c+=1;
-					for(;i<4;++i,c+=1){
-						*c=ucs.byte[i];
-					}
-					return;
-				}else{
-					DEADEND();
+			}
+			if(gb18030_table[mid].beg<=t->ucs && t->ucs<=gb18030_table[mid].end){
+				ucs.ucs4=htobe32(gb18030_table[mid].off + (t->ucs - gb18030_table[mid].beg));
+				for(i=0;ucs.byte[i]==0 && i<4;++i);
+				DATA_MALLOC(ins, this_phase->data_tail->next);
+				this_phase->data_tail=this_phase->data_tail->next;
+				this_phase->data_tail->next=NULL;
+				this_phase->data_tail->len=5 - i;
+				this_phase->data_tail->data=c=malloc(5 - i);
+				this_phase->data_tail->flags=F_FREE;
+				this_phase->state.status=NEXTPHASE;
+				*c=0x01;
+				c+=1;
+				for(;i<4;++i,c+=1){
+					*c=ucs.byte[i];
 				}
-				break;
-			default:
+				return;
+			}else{
 				DEADEND();
-		}
+			}
+			break;
+		default:
+			DEADEND();
 	}
 	this_phase->state.status=CONTINUE;
 	return;
-- 
2.43.0


From 03212b3fd5416663b6eb9bfd2072d3043b4a443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 07/71] fix: to/UTF-32 overran its buffer on oversized
 characters

---
 modules/to/UTF-32BE.c | 5 +++++
 modules/to/UTF-32LE.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/modules/to/UTF-32BE.c b/modules/to/UTF-32BE.c
index 200a14d..f213b1d 100644
--- a/modules/to/UTF-32BE.c
+++ b/modules/to/UTF-32BE.c
@@ -9,6 +9,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
diff --git a/modules/to/UTF-32LE.c b/modules/to/UTF-32LE.c
index ab058ba..b894fac 100644
--- a/modules/to/UTF-32LE.c
+++ b/modules/to/UTF-32LE.c
@@ -11,6 +11,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
 
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
-- 
2.43.0


From 02b8eedf01f123b964bc0c445ae7c31f2955a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 08/71] fix: inter/STRINGS kept freed packets queued

---
 modules/inter/STRINGS.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 14f0453..0ab01cd 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -119,6 +119,7 @@ void cbflush(struct bsdconv_instance *ins){
 				LISTCPY(ins, this_phase->data_tail, r->after);
 		}else{
 			DATA_FREE(ins, r->qh->next);
+			r->qh->next=NULL;
 			r->qt=r->qh;
 			r->acc_len=0;
 		}
-- 
2.43.0


From ad0adc0458eda5cb996f815bb48b9979cc0f6975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 09/71] fix: inter/BIG5-DEFRAG lost pending packets at flush
 and linked freed ones

---
 modules/inter/BIG5-DEFRAG.c | 92 +++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 39 deletions(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 90c4454..284d4ee 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -8,12 +8,16 @@ struct my_s{
 };
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	r->p=NULL;
+	r->q=NULL;
 	return 0;
 }
 
 void cbinit(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	DATA_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
 	r->p=NULL;
 	r->q=NULL;
 	r->r=&(r->q);
@@ -21,58 +25,68 @@ void cbinit(struct bsdconv_instance *ins){
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
-	free(THIS_CODEC(ins)->priv);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+	DATA_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
+	free(r);
+}
+
+static void put(struct bsdconv_phase *this_phase, struct data_rt *data){
+	this_phase->data_tail->next=data;
+	while(this_phase->data_tail->next){
+		this_phase->data_tail=this_phase->data_tail->next;
+	}
+}
+
+//lead byte, the byte following it if there is one, the sequences found in between
+static void defrag(struct bsdconv_phase *this_phase, struct my_s *r, struct data_rt *next){
+	put(this_phase, r->p);
+	if(next)
+		put(this_phase, next);
+	put(this_phase, r->q);
+	r->p=NULL;
+	r->q=NULL;
+	r->r=&(r->q);
+	r->f=0;
+}
+
+void cbflush(struct bsdconv_instance *ins){
+	struct my_s *r=THIS_CODEC(ins)->priv;
+	if(r->f)
+		defrag(THIS_PHASE(ins), r, NULL);
 }
 
 void cbconv(struct bsdconv_instance *ins){
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	struct data_rt *t;
 	data=this_phase->curr->data;
 
 	if(r->f==0){
-		if(data[0]==0x3 && data[1]>0x7f){
+		t=dup_data_rt(ins, this_phase->curr);
+		t->next=NULL;
+		if(t->len>1 && data[0]==0x3 && data[1]>0x7f){
 			r->f=1;
-			r->p=dup_data_rt(ins, this_phase->curr);
+			r->p=t;
 			this_phase->state.status=SUBMATCH;
-			return;
 		}else{
-			DATA_MALLOC(ins, this_phase->data_tail->next);
-			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-			this_phase->data_tail=this_phase->data_tail->next;
-			this_phase->data_tail->next=NULL;
+			put(this_phase, t);
 			this_phase->state.status=NEXTPHASE;
-			return;
 		}
-	}else if(r->f){
-		if(data[0]==0x1b){
-			*(r->r)=dup_data_rt(ins, this_phase->curr);
-			(*(r->r))->next=NULL;
-			r->r=&((*(r->r))->next);
+		return;
+	}else if(data[0]==0x1b){
+		*(r->r)=dup_data_rt(ins, this_phase->curr);
+		(*(r->r))->next=NULL;
+		r->r=&((*(r->r))->next);
 
-			this_phase->state.status=SUBMATCH;
-			return;
-		}else{
-			r->f=0;
-
-			this_phase->data_tail->next=r->p;
-			this_phase->data_tail=this_phase->data_tail->next;
-
-			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-			this_phase->data_tail=this_phase->data_tail->next;
-
-			if(r->q){
-				this_phase->data_tail->next=r->q;
-				*(r->r)=NULL;
-				while(this_phase->data_tail->next){
-					this_phase->data_tail=this_phase->data_tail->next;
-				}
-			}
-			r->p=r->q=NULL;
-			r->r=&(r->q);
-			r->f=0;
-			this_phase->state.status=NEXTPHASE;
-			return;
-		}
+		this_phase->state.status=SUBMATCH;
+		return;
+	}else{
+		t=dup_data_rt(ins, this_phase->curr);
+		t->next=NULL;
+		defrag(this_phase, r, t);
+		this_phase->state.status=NEXTPHASE;
+		return;
 	}
 }
-- 
2.43.0


From 071401d58248cd0f6f93240e4ef322fe2d9500ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 10/71] fix: inter/_NF-ORDER and _NFC kept queued characters
 across bsdconv_init

---
 modules/inter/_NF-ORDER.c | 18 +++++++++++++++++-
 modules/inter/_NFC.c      |  3 ++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/modules/inter/_NF-ORDER.c b/modules/inter/_NF-ORDER.c
index 0b0a120..204977f 100644
--- a/modules/inter/_NF-ORDER.c
+++ b/modules/inter/_NF-ORDER.c
@@ -26,6 +26,21 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+static void clear(struct bsdconv_instance *ins, struct my_s *r){
+	while(r->head->next){
+		struct ll_s *next=r->head->next;
+		DATUM_FREE(ins, r->head->p);
+		free(r->head);
+		r->head=next;
+	}
+	r->head=r->tail;
+	r->head->prev=NULL;
+}
+
+void cbinit(struct bsdconv_instance *ins){
+	clear(ins, THIS_CODEC(ins)->priv);
+}
+
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
@@ -122,6 +137,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
-	free(r->head);
+	clear(ins, r);
+	free(r->tail);
 	free(r);
 }
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 8d5370d..ea0b337 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -29,6 +29,7 @@ void cbinit(struct bsdconv_instance *ins){
 	struct data_rt *t;
 	if(r->starter){
 		DATUM_FREE(ins, r->starter);
+		r->starter=NULL;
 	}
 	while(r->pending_head->next){
 		t=r->pending_head->next->next;
@@ -173,7 +174,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	struct data_rt *t;
 	bsdconv_destroy(r->map);
-	if(r->status){
+	if(r->starter){
 		DATUM_FREE(ins, r->starter);
 	}
 	while(r->pending_head){
-- 
2.43.0


From 35b330b588f39bc5d123d99d45bbdfc2d72e475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:22 +0000
Subject: [PATCH 11/71] fix: packets flushed by a codec stayed in its input
 queue

---
 modules/inter/WHITESPACE-RERAIL.c | 3 +++
 modules/to/EBCDIC.c               | 3 +++
 src/libbsdconv.c                  | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 2880b18..9592bbc 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -49,6 +49,9 @@ void cbflush(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	struct data_rt *q;
 
+	//everything matched has been passed on
+	this_phase->bak=PREV_PHASE(ins)->data_head->next;
+
 	while(t->queue){
 		this_phase->data_tail->next=t->queue->data;
 		this_phase->data_tail=this_phase->data_tail->next;
diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index afb2170..81252cf 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -22,6 +22,9 @@ void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
 
+	//everything matched has been passed on
+	this_phase->bak=PREV_PHASE(ins)->data_head->next;
+
 	this_phase->flags &= ~F_PENDING;
 	if(t->status!=0){
 		t->status=0;
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 1ed8da9..bb81f34 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -770,6 +770,10 @@ void bsdconv(struct bsdconv_instance *ins){
 								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
+
+								//resume right after the matched part
+								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+								this_phase->curr=prev_phase->data_head;
 							}
 
 							this_phase->flags &= ~F_MATCH;
@@ -902,6 +906,10 @@ void bsdconv(struct bsdconv_instance *ins){
 								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
+
+								//resume right after the matched part
+								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+								this_phase->curr=prev_phase->data_head;
 							}
 
 							this_phase->flags &= ~F_MATCH;
-- 
2.43.0


From 97b18144b1d5a3b60b1478132730fcf4892f437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 12/71] fix: to/_GB18030 and to/ASCII-HTML-UNICODE-IMG overran
 buffers on oversized characters

---
 modules/to/ASCII-HTML-UNICODE-IMG.c | 12 ++++--------
 modules/to/_GB18030.c               |  5 +++++
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/modules/to/ASCII-HTML-UNICODE-IMG.c b/modules/to/ASCII-HTML-UNICODE-IMG.c
index 66751d8..41caadc 100644
--- a/modules/to/ASCII-HTML-UNICODE-IMG.c
+++ b/modules/to/ASCII-HTML-UNICODE-IMG.c
@@ -6,7 +6,7 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 void cbconv(struct bsdconv_instance *ins){
-	char *data, *p, buf[128]={0};
+	char *data, *p;
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
@@ -15,13 +15,13 @@ void cbconv(struct bsdconv_instance *ins){
 		return;
 	}
 	this_phase->state.status=NEXTPHASE;
-	p=buf;
-	i=*data;
 	data+=1;
 	len=this_phase->curr->len-1;
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
+	this_phase->data_tail->flags=F_FREE;
+	p=this_phase->data_tail->data=malloc(128+len*2);
 
 	sprintf(p,"<img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-");
 	TAILIZE(p);
@@ -35,11 +35,7 @@ void cbconv(struct bsdconv_instance *ins){
 	TAILIZE(p);
 	sprintf(p, "\" />");
 	TAILIZE(p);
-	len=p-buf;
-	this_phase->data_tail->len=len;
-	this_phase->data_tail->flags=F_FREE;
-	this_phase->data_tail->data=malloc(len);
-	memcpy(this_phase->data_tail->data, buf, len);
+	this_phase->data_tail->len=p-CP(this_phase->data_tail->data);
 
 	return;
 }
diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 457d69b..0d25bd4 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -42,6 +42,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len>sizeof(codepoint)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	codepoint.num=0;
 	for(i=0;(len-i)>0;++i){
 		codepoint.byte[3-i]=data[len-i-1];
-- 
2.43.0


From 7f26c93cc36207b8532a302cb26bd1d2465300a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 13/71] fix: hash lookup returned another key's value and
 delete unlinked the wrong entry

---
 src/libbsdconv_hash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index b9d0a8d..d50371d 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -34,7 +34,7 @@ void *bsdconv_hash_get(struct bsdconv_instance *ins, const char *key){
 			p->ptr=ins->hash->ptr;
 			ins->hash->key=tk;
 			ins->hash->ptr=tp;
-			return p->ptr;
+			return tp;
 		}
 		p=p->next;
 	}
@@ -70,7 +70,7 @@ void bsdconv_hash_del(struct bsdconv_instance *ins, const char *key){
 			free(p);
 			return;
 		}
-		p=p->next;
 		q=&p->next;
+		p=p->next;
 	}
 }
-- 
2.43.0


From 03c0951f5f20d4dccc51f44a6e8438f7c74ca39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 14/71] fix: an unconvertible packet took the packets after it
 along, uncounted

---
 src/libbsdconv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index bb81f34..371596c 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -930,7 +930,8 @@ void bsdconv(struct bsdconv_instance *ins){
 							RESET(ins->phase_index);
 							this_codec=THIS_CODEC(ins);
 
-							this_phase->bak=this_phase->curr->next;
+							//drop the first packet only, the following ones may start something convertible
+							this_phase->bak=prev_phase->data_head->next->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From e6b2c034094bb945b0cfed888b64c95b02c4a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 15/71] fix: inter/_NFC moved list nodes between instances,
 growing memory with every character

---
 modules/inter/_NFC.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index ea0b337..36a3caa 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -93,7 +93,7 @@ void cbconv(struct bsdconv_instance *ins){
 						bsdconv_counter_reset(r->map, NULL);
 						r->map->input=*(r->starter);
 						r->map->input.flags &= ~F_FREE;
-						DATA_MALLOC(ins, r->map->input.next);
+						DATA_MALLOC(r->map, r->map->input.next);
 						*(r->map->input.next)=*(this_phase->curr);
 						r->map->input.next->flags &= ~F_FREE;
 						r->map->input.next->next=NULL;
@@ -102,8 +102,9 @@ void cbconv(struct bsdconv_instance *ins){
 						if(*(r->err)==0){
 							DATUM_FREE(ins, r->starter);
 							r->status=1;
-							r->starter=r->map->phase[r->map->phasen].data_head->next;
-							r->map->phase[r->map->phasen].data_head->next=NULL;
+							t=r->map->phase[r->map->phasen].data_head->next;
+							r->starter=dup_data_rt(ins, t);
+							r->starter->next=NULL;
 						}else{
 							cbflush(ins);
 							r->status=1;
@@ -125,7 +126,7 @@ void cbconv(struct bsdconv_instance *ins){
 						bsdconv_counter_reset(r->map, NULL);
 						r->map->input=*(r->starter);
 						r->map->input.flags &= ~F_FREE;
-						DATA_MALLOC(ins, r->map->input.next);
+						DATA_MALLOC(r->map, r->map->input.next);
 						*(r->map->input.next)=*(this_phase->curr);
 						r->map->input.next->flags &= ~F_FREE;
 						r->map->input.next->next=NULL;
@@ -135,8 +136,9 @@ void cbconv(struct bsdconv_instance *ins){
 						if(*(r->err)==0){ //combinable
 							DATUM_FREE(ins, r->starter);
 							r->status=1;
-							r->starter=r->map->phase[r->map->phasen].data_head->next;
-							r->map->phase[r->map->phasen].data_head->next=NULL;
+							t=r->map->phase[r->map->phasen].data_head->next;
+							r->starter=dup_data_rt(ins, t);
+							r->starter->next=NULL;
 
 							if(r->pending_head->next){
 								t=this_phase->curr->next;
-- 
2.43.0


From 9ca31bb612e616535c12659dc1a70a87868f2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 16/71] fix: descriptor output lost data on short, interrupted
 or failed writes

---
 src/libbsdconv.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 371596c..7260100 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -598,6 +598,7 @@ void bsdconv(struct bsdconv_instance *ins){
 	char *ptr;
 	FILE *fp;
 	int fd;
+	ssize_t written;
 	unsigned char c;
 	struct bsdconv_phase *prev_phase;
 	struct bsdconv_phase *this_phase;
@@ -1096,11 +1097,24 @@ void bsdconv(struct bsdconv_instance *ins){
 			fd=(intptr_t)ins->output.data;
 			while(last_phase->data_head->next){
 				data_ptr=last_phase->data_head->next;
-				write(fd, data_ptr->data, data_ptr->len);
+				written=write(fd, data_ptr->data, data_ptr->len);
+				if(written<0 && errno==EINTR)
+					continue;
+				if(written<0 || (written==0 && data_ptr->len)) //undelivered data stays queued
+					break;
+				if((size_t)written<data_ptr->len){
+					data_ptr->len-=written;
+					if(data_ptr->flags & F_FREE)
+						memmove(data_ptr->data, CP(data_ptr->data)+written, data_ptr->len);
+					else
+						data_ptr->data=CP(data_ptr->data)+written;
+					continue;
+				}
 				last_phase->data_head->next=last_phase->data_head->next->next;
 				DATUM_FREE(ins, data_ptr);
 			}
-			last_phase->data_tail=last_phase->data_head;
+			if(last_phase->data_head->next==NULL)
+				last_phase->data_tail=last_phase->data_head;
 			break;
 		case BSDCONV_NULL:
 			while(last_phase->data_head->next){
-- 
2.43.0


From 3f3d432bb1063a55839675d001f8843a9101dbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 17/71] fix: input handed over as a list was cut off at its
 first element

---
 src/libbsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 7260100..8e331a9 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -608,6 +608,8 @@ void bsdconv(struct bsdconv_instance *ins){
 		DATA_MALLOC(ins, ins->phase[0].data_tail->next);
 		ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		*(ins->phase[0].data_tail)=ins->input;
+		while(ins->phase[0].data_tail->next) //input may be a list, see BSDCONV_PASS
+			ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		ins->input.data=NULL;
 		ins->input.len=0;
 		ins->input.flags=0;
-- 
2.43.0


From 13373fd29af937f23d7227b76156b4d6c6ed0191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:39 +0000
Subject: [PATCH 18/71] fix: unconvertible packet: skip empty list nodes when
 dropping it

---
 src/libbsdconv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 8e331a9..49eb9b8 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -934,7 +934,10 @@ void bsdconv(struct bsdconv_instance *ins){
 							this_codec=THIS_CODEC(ins);
 
 							//drop the first packet only, the following ones may start something convertible
-							this_phase->bak=prev_phase->data_head->next->next;
+							this_phase->bak=prev_phase->data_head->next;
+							while(this_phase->bak->len==0 && this_phase->bak!=this_phase->curr)
+								this_phase->bak=this_phase->bak->next;
+							this_phase->bak=this_phase->bak->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From 8a728bd6f3e5d7e1ae644a3ca83fb969e21c15a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 19/71] fix: inter/_NFC kept the whole stream queued until a
 flush

---
 modules/inter/_NFC.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 36a3caa..5d29362 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -52,6 +52,7 @@ void cbconv(struct bsdconv_instance *ins){
 	int min = 0;
 	int mid;
 	struct data_rt *t;
+	struct data_rt *data_ptr;
 
 	if(data[0]==0x1){
 		for(i=1;i<this_phase->curr->len;++i){
@@ -86,6 +87,8 @@ void cbconv(struct bsdconv_instance *ins){
 				}
 				return;
 			case 1:
+				//earlier packets have been duplicated, do not collect them until the end of the stream
+				LISTFREE(ins, prev_phase->data_head, this_phase->curr, prev_phase->data_tail);
 				if(ccc==0){ //following starter
 					r->ccc=0;
 					if(r->pending_head->next==NULL){ //adjacent starters
-- 
2.43.0


From 72819d6ff6a39f50339908344bbef7227f6f155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 20/71] fix: WHITESPACE-RERAIL before WHITESPACE-DERAIL never
 finished flushing

---
 modules/inter/WHITESPACE-DERAIL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/WHITESPACE-DERAIL.c b/modules/inter/WHITESPACE-DERAIL.c
index e62cffa..46e9b2e 100644
--- a/modules/inter/WHITESPACE-DERAIL.c
+++ b/modules/inter/WHITESPACE-DERAIL.c
@@ -70,7 +70,7 @@ void cbconv(struct bsdconv_instance *ins){
 			((struct data_rt *)q->data)->next=NULL;
 			q->len=t->offsetA;
 
-			if(t->rerail){
+			if(t->rerail > this_phase){ //an earlier phase would hand it back here forever
 				t->rerail->flags |= (F_MATCH | F_PENDING);
 				t->rerail->match_data = NULL;
 			}
-- 
2.43.0


From 4684f0f7e27b0b06754fadabf2a58ab997fceb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 21/71] fix: helper instances lost list nodes, memory grew with
 the stream; from/EBCDIC swallowed bytes; from/UTF-16BE leaked

---
 modules/from/EBCDIC.c       |  5 +++++
 modules/from/UTF-16BE.c     |  1 +
 modules/inter/ALIAS-FROM.c  |  7 +------
 modules/inter/ALIAS-INTER.c | 14 ++------------
 modules/inter/TRIM-WIDTH.c  |  7 +------
 src/bsdconv.h               | 17 +++++++++++++++++
 6 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/modules/from/EBCDIC.c b/modules/from/EBCDIC.c
index cb6dc62..5a39791 100644
--- a/modules/from/EBCDIC.c
+++ b/modules/from/EBCDIC.c
@@ -28,6 +28,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	unsigned char *c;
 
+	if(this_phase->flags & F_LOOPBACK){ //not the second byte of any pair
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
 
diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 6e77e22..81e871f 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -87,6 +87,7 @@ void cbconv(struct bsdconv_instance *ins){
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
 					this_phase->data_tail->len=l;
+					this_phase->data_tail->flags=F_FREE;
 					this_phase->data_tail->data=malloc(l);
 					CP(this_phase->data_tail->data)[0]=0x01;
 					memcpy(CP(this_phase->data_tail->data)+1, &buf[i], l-1);
diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index e9c9844..478336b 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -33,12 +33,7 @@ void cbconv(struct bsdconv_instance *ins){
 	uni->input.next=NULL;
 	uni->flush=1;
 	bsdconv(uni);
-	this_phase->data_tail->next=uni->phase[uni->phasen].data_head->next;
-	uni->phase[uni->phasen].data_head->next=NULL;
-	uni->phase[uni->phasen].data_tail=uni->phase[uni->phasen].data_head;
-	while(this_phase->data_tail->next!=NULL){
-		this_phase->data_tail=this_phase->data_tail->next;
-	}
+	move_output_rt(ins, this_phase, uni);
 
 	this_phase->state.status=NEXTPHASE;
 	return;
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 895e8be..0b75c93 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -30,12 +30,7 @@ void cbconv(struct bsdconv_instance *ins){
   	uni->input.next=NULL;
   	uni->flush=1;
   	bsdconv(uni);
-  	this_phase->data_tail->next=uni->phase[uni->phasen].data_head->next;
-  	uni->phase[uni->phasen].data_head->next=NULL;
-  	uni->phase[uni->phasen].data_tail=uni->phase[uni->phasen].data_head;
-  	while(this_phase->data_tail->next!=NULL){
-  		this_phase->data_tail=this_phase->data_tail->next;
-  	}
+  	move_output_rt(ins, this_phase, uni);
   }
 
   if(found==0){
@@ -47,12 +42,7 @@ void cbconv(struct bsdconv_instance *ins){
   	uni->input.next=NULL;
   	uni->flush=1;
   	bsdconv(uni);
-  	this_phase->data_tail->next=uni->phase[uni->phasen].data_head->next;
-  	uni->phase[uni->phasen].data_head->next=NULL;
-  	uni->phase[uni->phasen].data_tail=uni->phase[uni->phasen].data_head;
-  	while(this_phase->data_tail->next!=NULL){
-  		this_phase->data_tail=this_phase->data_tail->next;
-  	}
+  	move_output_rt(ins, this_phase, uni);
   }
 
 	this_phase->state.status=NEXTPHASE;
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 0b7dc8b..92ed686 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -69,12 +69,7 @@ void cbconv(struct bsdconv_instance *ins){
 	bsdconv(r->ins);
 	int w=*(r->full)*2 + *(r->half) + *(r->ambi) * r->ambi_width;
 	if(r->remain >= w){
-		this_phase->data_tail->next=r->ins->phase[r->ins->phasen].data_head->next;
-		while(this_phase->data_tail->next){
-			this_phase->data_tail=this_phase->data_tail->next;
-		}
-		r->ins->phase[r->ins->phasen].data_head->next=NULL;
-		r->ins->phase[r->ins->phasen].data_tail=r->ins->phase[r->ins->phasen].data_head;
+		move_output_rt(ins, this_phase, r->ins);
 		r->remain -= w;
 	}else{
 		r->remain=-1;
diff --git a/src/bsdconv.h b/src/bsdconv.h
index bf74de9..df5cc5c 100644
--- a/src/bsdconv.h
+++ b/src/bsdconv.h
@@ -360,6 +360,23 @@ static inline struct data_rt * dup_data_rt(struct bsdconv_instance *ins, struct
 	return ret;
 }
 
+#ifdef _BSDCONV_INTERNAL
+//append the output of a helper instance, whose nodes stay with the helper
+static inline void move_output_rt(struct bsdconv_instance *ins, struct bsdconv_phase *phase, struct bsdconv_instance *helper){
+	struct bsdconv_phase *last=LAST_PHASE(helper);
+	struct data_rt *data;
+	while(last->data_head->next){
+		data=last->data_head->next;
+		last->data_head->next=data->next;
+		phase->data_tail->next=dup_data_rt(ins, data);
+		phase->data_tail=phase->data_tail->next;
+		phase->data_tail->next=NULL;
+		DATUM_FREE(helper, data);
+	}
+	last->data_tail=last->data_head;
+}
+#endif
+
 static inline void strtoupper(char *s){
 	char *c;
 	for(c=s;*c;++c){
-- 
2.43.0


From 7519b6177fd4c841af43d8b01777895e9ffae889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 22/71] fix: module lookup changed the process's working
 directory

---
 src/libbsdconv.c        | 46 ++++++------------------
 src/libbsdconv_filter.c | 17 ++-------
 src/libbsdconv_module.c | 77 ++++++++---------------------------------
 src/libbsdconv_scorer.c | 17 ++-------
 src/libbsdconv_util.c   | 31 +++++++++++++++++
 5 files changed, 63 insertions(+), 125 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 49eb9b8..a453c3d 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -32,12 +32,12 @@
 struct bsdconv_instance *bsdconv_unpack(const char *);
 char *bsdconv_pack(struct bsdconv_instance *);
 
+#include "libbsdconv_util.c"
 #include "libbsdconv_counter.c"
 #include "libbsdconv_filter.c"
 #include "libbsdconv_scorer.c"
 #include "libbsdconv_hash.c"
 #include "libbsdconv_module.c"
-#include "libbsdconv_util.c"
 
 static inline int _cbcreate(struct bsdconv_instance *ins, int p, int c){
 	int r;
@@ -73,7 +73,8 @@ static inline int _cbcreate(struct bsdconv_instance *ins, int p, int c){
 	return r;
 }
 
-int _loadcodec(struct bsdconv_codec *cd, char *path){
+int _loadcodec(struct bsdconv_codec *cd, const char *path){
+	char *sopath;
 #ifdef WIN32
 	if ((cd->fd=CreateFile(path, GENERIC_READ, FILE_SHARE_READ, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_NORMAL, NULL))==INVALID_HANDLE_VALUE){
 		SetLastError(EOPNOTSUPP);
@@ -114,9 +115,10 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 	cd->cbconv=NULL;
 	cd->cbflush=NULL;
 	cd->cbdestroy=NULL;
-	strcat(path, "." SHLIBEXT);
+	sopath=malloc(strlen(path)+strlen("." SHLIBEXT)+1);
+	sprintf(sopath, "%s.%s", path, SHLIBEXT);
 
-	if((cd->dl=OPEN_SHAREOBJECT(path))){
+	if((cd->dl=OPEN_SHAREOBJECT(sopath))){
 		cd->cbconv=SHAREOBJECT_SYMBOL(cd->dl,"cbconv");
 		cd->cbflush=SHAREOBJECT_SYMBOL(cd->dl,"cbflush");
 		cd->cbcreate=SHAREOBJECT_SYMBOL(cd->dl,"cbcreate");
@@ -124,42 +126,16 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 		cd->cbctl=SHAREOBJECT_SYMBOL(cd->dl,"cbctl");
 		cd->cbdestroy=SHAREOBJECT_SYMBOL(cd->dl,"cbdestroy");
 	}
+	free(sopath);
 
 	return 1;
 }
 
 int loadcodec(struct bsdconv_codec *cd, int type){
-	char *cwd;
-	char *c;
-	char buf[PATH_MAX+1];
-	char *upper;
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	switch(type){
-		case FROM:
-			chdir("from");
-			break;
-		case INTER:
-			chdir("inter");
-			break;
-		case TO:
-			chdir("to");
-			break;
-	}
-	upper=strdup(cd->desc);
-	strtoupper(upper);
-	REALPATH(upper, buf);
-	chdir(cwd);
-	free(cwd);
-	free(upper);
-	if(!_loadcodec(cd, buf))
-		return 0;
-	return 1;
+	char *path=getModulePath(type, cd->desc, "");
+	int r=_loadcodec(cd, path);
+	free(path);
+	return r;
 }
 
 void unloadcodec(struct bsdconv_codec *cd){
diff --git a/src/libbsdconv_filter.c b/src/libbsdconv_filter.c
index d386c4e..96d0e8e 100644
--- a/src/libbsdconv_filter.c
+++ b/src/libbsdconv_filter.c
@@ -1,9 +1,8 @@
 struct bsdconv_filter *load_filter(const char *_name){
 	struct bsdconv_filter *filter;
 
-	char *cwd;
 	char *c;
-	char path[PATH_MAX+1];
+	char *path;
 	char *name=strdup(_name);
 	strtoupper(name);
 
@@ -17,22 +16,12 @@ struct bsdconv_filter *load_filter(const char *_name){
 		free(name);
 		name=c;
 	}
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	chdir("filter");
-	REALPATH(name, path);
-	chdir(cwd);
-	free(cwd);
+	path=getModulePath(FILTER, name, "." SHLIBEXT);
 	free(name);
-	strcat(path, "." SHLIBEXT);
 
 	filter=malloc(sizeof(struct bsdconv_filter));
 	filter->so=OPEN_SHAREOBJECT(path);
+	free(path);
 	if(!filter->so){
 		free(filter);
 		return NULL;
diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2cc822b..935b06f 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -80,61 +80,19 @@ int bsdconv_codec_check(int type, const char *_codec){
 
 int bsdconv_module_check(int type, const char *_codec){
 	int ret=0;
-	char *cwd;
-	char *codec=NULL;
+	char *path;
 	FILE *fp;
-	char *c;
-
-	cwd=getcwd(NULL, 0);
 
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
+	if(*_codec==0)
+		return 0;
 
-	chdir(MODULES_SUBPATH);
-	switch(type){
-		case FROM:
-			chdir("from");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case INTER:
-			chdir("inter");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case TO:
-			chdir("to");
-			codec=strdup(_codec);
-			strtoupper(codec);
-			break;
-		case FILTER:
-			chdir("filter");
-			codec=malloc(strlen(_codec) + strlen("." SHLIBEXT) + 1);
-			strcpy(codec, _codec);
-			strtoupper(codec);
-			strcat(codec, "." SHLIBEXT);
-			break;
-		case SCORER:
-			chdir("scorer");
-			codec=malloc(strlen(_codec) + strlen("." SHLIBEXT) + 1);
-			strcpy(codec, _codec);
-			strtoupper(codec);
-			strcat(codec, "." SHLIBEXT);
-			break;
-	}
-
-	fp=fopen(codec, "rb");
+	path=getModulePath(type, _codec, type==FILTER || type==SCORER ? "." SHLIBEXT : "");
+	fp=fopen(path, "rb");
 	if(fp!=NULL){
 		fclose(fp);
 		ret=1;
 	}
-	free(codec);
-
-	chdir(cwd);
-	free(cwd);
+	free(path);
 
 	return ret;
 }
@@ -151,22 +109,14 @@ char ** bsdconv_modules_list(int phase_type){
 	char **list=malloc(sizeof(char *) * 8);
 	int size=8;
 	int length=0;
-	char *cwd;
+	char *path;
 	char *c;
 	DIR *dir;
 	struct dirent *d;
 	FILE *fp;
 	char buf[256];
 	const char *type;
-	cwd=getcwd(NULL, 0);
-
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
 	list[0]=NULL;
-	chdir(MODULES_SUBPATH);
 	switch(phase_type){
 		case FROM:
 			type="from";
@@ -186,7 +136,11 @@ char ** bsdconv_modules_list(int phase_type){
 		default:
 			return list;
 	}
-	dir=opendir(type);
+	c=getCodecDir();
+	path=malloc(strlen(c)+strlen(type)+strlen("/alias")+2);
+	sprintf(path, "%s/%s", c, type);
+	free(c);
+	dir=opendir(path);
 	if(dir!=NULL){
 		if(phase_type==FILTER || phase_type==SCORER){
 			while((d=readdir(dir))!=NULL){
@@ -215,8 +169,9 @@ char ** bsdconv_modules_list(int phase_type){
 		}
 		closedir(dir);
 	}
-	chdir(type);
-	fp=fopen("alias","rb");
+	strcat(path, "/alias");
+	fp=fopen(path,"rb");
+	free(path);
 	if(fp!=NULL){
 		while(fgets(buf, sizeof(buf), fp)!=NULL){
 			if(buf[0]=='#')
@@ -237,7 +192,5 @@ char ** bsdconv_modules_list(int phase_type){
 	}
 	qsort(list, length, sizeof(char *), scmp);
 	list[length]=NULL;
-	chdir(cwd);
-	free(cwd);
 	return list;
 }
diff --git a/src/libbsdconv_scorer.c b/src/libbsdconv_scorer.c
index 69cda29..42227e5 100644
--- a/src/libbsdconv_scorer.c
+++ b/src/libbsdconv_scorer.c
@@ -1,9 +1,8 @@
 struct bsdconv_scorer *load_scorer(const char *_name){
 	struct bsdconv_scorer *scorer;
 
-	char *cwd;
 	char *c;
-	char path[PATH_MAX+1];
+	char *path;
 	char *name=strdup(_name);
 	strtoupper(name);
 
@@ -17,22 +16,12 @@ struct bsdconv_scorer *load_scorer(const char *_name){
 		free(name);
 		name=c;
 	}
-	cwd=getcwd(NULL, 0);
-	if((c=getenv("BSDCONV_PATH"))){
-		chdir(c);
-	}else{
-		chdir(BSDCONV_PATH);
-	}
-	chdir(MODULES_SUBPATH);
-	chdir("scorer");
-	REALPATH(name, path);
-	chdir(cwd);
-	free(cwd);
+	path=getModulePath(SCORER, name, "." SHLIBEXT);
 	free(name);
-	strcat(path, "." SHLIBEXT);
 
 	scorer=malloc(sizeof(struct bsdconv_scorer));
 	scorer->so=OPEN_SHAREOBJECT(path);
+	free(path);
 	if(!scorer->so){
 		free(scorer);
 		return NULL;
diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 94e3bca..ed0f25e 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -21,6 +21,37 @@ char * getCodecDir(){
 	return b;
 }
 
+//path of a module: names are upper case below the directory of their type
+static char * getModulePath(int type, const char *name, const char *suffix){
+	const char *sub="";
+	char *dir=getCodecDir();
+	char *upper=strdup(name);
+	char *b;
+	switch(type){
+		case FROM:
+			sub="from";
+			break;
+		case INTER:
+			sub="inter";
+			break;
+		case TO:
+			sub="to";
+			break;
+		case FILTER:
+			sub="filter";
+			break;
+		case SCORER:
+			sub="scorer";
+			break;
+	}
+	strtoupper(upper);
+	b=malloc(strlen(dir)+strlen(sub)+strlen(upper)+strlen(suffix)+3);
+	sprintf(b, "%s/%s/%s%s", dir, sub, upper, suffix);
+	free(upper);
+	free(dir);
+	return b;
+}
+
 int str2datum(const char *s, struct data_rt *d){
 	d->data=NULL;
 	d->len=0;
-- 
2.43.0


From 43ff9a37f756a1816951efddc83d9230e9429a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 23/71] fix: in-place conversion could destroy the original;
 I/O errors were ignored

---
 src/bsdconv.c | 59 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 74794eb..62977d1 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -38,10 +38,10 @@ void list_modules(){
 	printf("[Scorer]\n");
 	LIST_MODULES(SCORER);
 
-	exit(0);
+	exit(fflush(stdout)==0 && !ferror(stdout) ? 0 : 1);
 }
 
-void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
+int bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char *filename){
 	char *ib;
 	bsdconv_init(ins);
 	do{
@@ -70,6 +70,16 @@ void bsdconv_file(struct bsdconv_instance *ins, FILE *in, FILE *out, const char
 		}
 		c=c->next;
 	}
+
+	if(ferror(in)){
+		fprintf(stderr, "Failed reading %s.\n", filename ? filename : "input");
+		return -1;
+	}
+	if(fflush(out)!=0 || ferror(out)){
+		fprintf(stderr, "Failed writing output.\n");
+		return -1;
+	}
+	return 0;
 }
 
 int main(int argc, char *argv[]){
@@ -79,6 +89,7 @@ int main(int argc, char *argv[]){
 	struct bsdconv_instance *ins;
 	FILE *inf=NULL, *otf=stdout;
 	int inplace=0;
+	int err=0;
 	int i;
 
 	if(argc<2){
@@ -117,7 +128,10 @@ int main(int argc, char *argv[]){
 	}
 
 	if(i>=argc){
-		bsdconv_file(ins, stdin, stdout, NULL);
+		if(bsdconv_file(ins, stdin, stdout, NULL)){
+			bsdconv_destroy(ins);
+			exit(1);
+		}
 	}else for(;i<argc;++i){
 		if(inplace){
 			inf=fopen(argv[i],"rb");
@@ -131,6 +145,7 @@ int main(int argc, char *argv[]){
 			strcat(tmp, ".XXXXXX");
 			if((fd=mkstemp(tmp))==-1){
 				free(tmp);
+				fclose(inf);
 				fprintf(stderr, "Failed creating temp file.\n");
 				bsdconv_destroy(ins);
 				exit(1);
@@ -138,20 +153,38 @@ int main(int argc, char *argv[]){
 			otf=fdopen(fd, "wb");
 			if(!otf){
 				fprintf(stderr, "Unable to open output file for %s\n", argv[i]);
+				close(fd);
+				unlink(tmp);
+				free(tmp);
+				fclose(inf);
 				bsdconv_destroy(ins);
 				exit(1);
 			}
 #ifndef WIN32
 			struct stat stat;
-			fstat(fileno(inf), &stat);
-			fchown(fileno(otf), stat.st_uid, stat.st_gid);
-			fchmod(fileno(otf), stat.st_mode);
+			err=fstat(fileno(inf), &stat);
+			if(!err){
+				fchown(fileno(otf), stat.st_uid, stat.st_gid);
+				err=fchmod(fileno(otf), stat.st_mode);
+			}
 #endif
-			bsdconv_file(ins, inf, otf, argv[i]);
+			if(!err)
+				err=bsdconv_file(ins, inf, otf, argv[i]);
 			fclose(inf);
-			fclose(otf);
-			unlink(argv[i]);
-			rename(tmp,argv[i]);
+			if(fclose(otf))
+				err=-1;
+			//the original stays until it can be replaced by the complete output
+#ifdef WIN32
+			if(!err)
+				unlink(argv[i]);
+#endif
+			if(err || rename(tmp,argv[i])){
+				fprintf(stderr, "Failed converting %s.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 			free(tmp);
 
 		}else{
@@ -161,8 +194,12 @@ int main(int argc, char *argv[]){
 				bsdconv_destroy(ins);
 				exit(1);
 			}
-			bsdconv_file(ins, inf, stdout, argv[i]);
+			err=bsdconv_file(ins, inf, stdout, argv[i]);
 			fclose(inf);
+			if(err){
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 		}
 	}
 	bsdconv_destroy(ins);
-- 
2.43.0


From dc6aed5acde4c2d51c5b3af60d1962b6fe264806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 24/71] fix: failing instance creation crashed, leaked and used
 freed memory

---
 modules/from/_JIS.c         | 10 +++--
 modules/inter/ALIAS-FROM.c  |  4 +-
 modules/inter/ALIAS-INTER.c |  4 +-
 modules/inter/TRIM-WIDTH.c  |  9 ++++-
 modules/inter/_NFC.c        |  5 +++
 src/libbsdconv.c            | 78 +++++++++++++++++++++++++------------
 6 files changed, 79 insertions(+), 31 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index c339456..a00eabf 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -27,16 +28,19 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->jis0208.desc="_JIS0208";
 	r->jis0212.desc="_JIS0212";
 	if(!loadcodec(&r->jis0201, FROM)){
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0208, FROM)){
 		unloadcodec(&r->jis0201);
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 	if(!loadcodec(&r->jis0212, FROM)){
 		unloadcodec(&r->jis0201);
 		unloadcodec(&r->jis0208);
-		return 1;
+		free(r);
+		return EOPNOTSUPP;
 	}
 
 	return 0;
diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index 478336b..db84963 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -1,10 +1,12 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
 
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if((THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS"))==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 0b75c93..b7ef50d 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -1,10 +1,12 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
 
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if((THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS"))==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 92ed686..c3e8953 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -29,15 +29,22 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->width=i;
 			width_set=1;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
-	if(width_set==0)
+	if(width_set==0){
+		free(r);
 		return EINVAL;
+	}
 
 	r->ins=bsdconv_create("WIDTH");
+	if(r->ins==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->full=bsdconv_counter(r->ins, "FULL");
 	r->half=bsdconv_counter(r->ins, "HALF");
 	r->ambi=bsdconv_counter(r->ins, "AMBI");
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 5d29362..5f0757b 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "../../src/bsdconv.h"
 
 #include "_NF-CCC.h"
@@ -15,6 +16,10 @@ struct my_s {
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
+	if(r->map==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->starter=NULL;
 	r->pending_tail=r->pending_head=malloc(sizeof(struct data_rt));
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index a453c3d..f00a643 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -31,6 +31,7 @@
 
 struct bsdconv_instance *bsdconv_unpack(const char *);
 char *bsdconv_pack(struct bsdconv_instance *);
+void unloadcodec(struct bsdconv_codec *);
 
 #include "libbsdconv_util.c"
 #include "libbsdconv_counter.c"
@@ -75,6 +76,7 @@ static inline int _cbcreate(struct bsdconv_instance *ins, int p, int c){
 
 int _loadcodec(struct bsdconv_codec *cd, const char *path){
 	char *sopath;
+	FILE *fp;
 #ifdef WIN32
 	if ((cd->fd=CreateFile(path, GENERIC_READ, FILE_SHARE_READ, NULL, OPEN_EXISTING, FILE_ATTRIBUTE_NORMAL, NULL))==INVALID_HANDLE_VALUE){
 		SetLastError(EOPNOTSUPP);
@@ -99,7 +101,11 @@ int _loadcodec(struct bsdconv_codec *cd, const char *path){
 		SetLastError(EOPNOTSUPP);
 		return 0;
 	}
-	fstat(cd->fd, &stat);
+	if(fstat(cd->fd, &stat)==-1){
+		close(cd->fd);
+		SetLastError(EOPNOTSUPP);
+		return 0;
+	}
 	cd->maplen=stat.st_size;
 	if((cd->data_z=cd->z=mmap(0, stat.st_size, PROT_READ, MAP_PRIVATE | MAP_PREFAULT_READ, cd->fd, 0))==MAP_FAILED){
 		close(cd->fd);
@@ -125,6 +131,14 @@ int _loadcodec(struct bsdconv_codec *cd, const char *path){
 		cd->cbinit=SHAREOBJECT_SYMBOL(cd->dl,"cbinit");
 		cd->cbctl=SHAREOBJECT_SYMBOL(cd->dl,"cbctl");
 		cd->cbdestroy=SHAREOBJECT_SYMBOL(cd->dl,"cbdestroy");
+	}else if((fp=fopen(sopath, "rb"))!=NULL || errno!=ENOENT){
+		//the codec has a callback module, it is of no use without
+		if(fp)
+			fclose(fp);
+		free(sopath);
+		unloadcodec(cd);
+		SetLastError(EOPNOTSUPP);
+		return 0;
 	}
 	free(sopath);
 
@@ -346,6 +360,11 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				for(;j>=0;--j){
 					free(ins->phase[i].codec[j].desc);
 				}
+				for(i=i-1;i>=1;--i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
+						free(ins->phase[i].codec[j].desc);
+					}
+				}
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
 				}
@@ -360,12 +379,25 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 	return ins;
 }
 
+static void bsdconv_unpack_free(struct bsdconv_instance *ins){
+	int i, j;
+	for(i=1;i<=ins->phasen;++i){
+		for(j=0;j<=ins->phase[i].codecn;++j){
+			free(ins->phase[i].codec[j].desc);
+		}
+		free(ins->phase[i].codec);
+	}
+	free(ins->phase);
+	free(ins);
+}
+
 struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	int e=0;
 	struct bsdconv_instance *ins=NULL;
 	char *conversion=malloc(strlen(_conversion)+1);
 	int i, j;
 	char *c;
+	char *desc;
 	const char *d;
 	char whitespace[256]={0};
 	whitespace['\r']=1;
@@ -397,31 +429,25 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 			for(j=0;j<=ins->phase[i].codecn;++j){
 				if(!bsdconv_module_check(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
-						printf("error %s\n", ins->phase[i].codec[j].desc);
+						bsdconv_unpack_free(ins);
 						free(conversion);
-						bsdconv_destroy(ins);
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
 					c=bsdconv_solve_alias(ins->phase[i].type, ins->phase[i].codec[j].desc);
+					desc=NULL;
 					if(c==NULL){
 						e=1;
 					}else{
 						if(strcmp(c, ins->phase[i].codec[j].desc)==0)
 							e=1;
-						free(ins->phase[i].codec[j].desc);
+						desc=ins->phase[i].codec[j].desc; //argv points into it
 						ins->phase[i].codec[j].desc=c;
 					}
 					free(conversion);
 					conversion=bsdconv_pack(ins);
-					for(i=1;i<=ins->phasen;++i){
-						for(j=0;j<=ins->phase[i].codecn;++j){
-							free(ins->phase[i].codec[j].desc);
-						}
-						free(ins->phase[i].codec);
-					}
-					free(ins->phase);
-					free(ins);
+					free(desc);
+					bsdconv_unpack_free(ins);
 					if(e){
 						SetLastError(EOPNOTSUPP);
 						free(conversion);
@@ -435,11 +461,12 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(!loadcodec(&ins->phase[i].codec[j], ins->phase[i].type)){
-				free(ins->phase[i].codec[j].desc);
-				j-=1;
-				for(;i>=1;j=ins->phase[--i].codecn){
-					for(;j>=0;--j){
-						free(ins->phase[i].codec[j].desc);
+				e=GetLastError();
+				for(j=j-1;j>=0;--j){
+					unloadcodec(&ins->phase[i].codec[j]);
+				}
+				for(i=i-1;i>=1;--i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
 						unloadcodec(&ins->phase[i].codec[j]);
 					}
 				}
@@ -476,11 +503,9 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 					}
 					for(i=1;i<=ins->phasen;++i){
 						for(j=0;j<=ins->phase[i].codecn;++j){
-							free(ins->phase[i].codec[j].desc);
 							unloadcodec(&ins->phase[i].codec[j]);
 						}
 					}
-					SetLastError(e);
 					goto bsdconv_create_error;
 				}
 			}
@@ -496,12 +521,14 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	return ins;
 
 bsdconv_create_error:
-	for(i=1;i<=ins->phasen;++i){
-		free(ins->phase[i].codec);
-	}
-
 	free(conversion);
-	free(ins->phase);
+
+	struct data_rt *data_ptr;
+	while(ins->pool){
+		data_ptr=ins->pool;
+		ins->pool=ins->pool->next;
+		free(data_ptr);
+	}
 
 	void *p;
 	while(ins->hash){
@@ -516,7 +543,8 @@ bsdconv_create_error:
 		free(ins->counter);
 		ins->counter=p;
 	}
-	free(ins);
+	bsdconv_unpack_free(ins);
+	SetLastError(e);
 	return NULL;
 }
 
-- 
2.43.0


From bb63db2ebae613de283fac4deffc883fe30b9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 25/71] fix: module arguments crashed or leaked at instance
 creation

---
 modules/from/BSDCONV-LOG.c  |  5 ++++-
 modules/from/ESCAPE.c       |  2 +-
 modules/inter/INSERT.c      |  1 +
 modules/inter/PASS.c        |  2 +-
 modules/inter/REPLACE.c     |  5 +++++
 modules/inter/SCORE-TRAIN.c | 14 ++++++++++----
 modules/inter/SCORE.c       | 13 +++++++------
 modules/inter/STRINGS.c     |  6 ++++--
 modules/to/BSDCONV-LOG.c    |  5 ++++-
 modules/to/ESCAPE.c         |  4 ++--
 src/libbsdconv_util.c       |  4 ++--
 11 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/modules/from/BSDCONV-LOG.c b/modules/from/BSDCONV-LOG.c
index 1483bf8..d276b3d 100644
--- a/modules/from/BSDCONV-LOG.c
+++ b/modules/from/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,9 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_FROM_LOG"),"a");
+	char *path=getenv("BSDCONV_FROM_LOG");
+	if(path==NULL || (THIS_CODEC(ins)->priv=fopen(path,"a"))==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index fa5b8d2..3ee9eec 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -177,7 +177,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=0;
 					t->buf[1]*=16;
 					t->buf[1]+=hex[(unsigned char)d];
-					while(t->buf[i]==0)++i;
+					while(i<1 && t->buf[i]==0)++i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
diff --git a/modules/inter/INSERT.c b/modules/inter/INSERT.c
index 6149aa2..04b08af 100644
--- a/modules/inter/INSERT.c
+++ b/modules/inter/INSERT.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "BEFORE")==0){
 			before=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/PASS.c b/modules/inter/PASS.c
index 9cf376a..ebeceef 100644
--- a/modules/inter/PASS.c
+++ b/modules/inter/PASS.c
@@ -21,7 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "LIMIT")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "LIMIT")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->limit=i;
 		}else{
 			free(r);
diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index ebd0b64..6e610bb 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -16,6 +16,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		DATA_FREE(ins, r->from);
 		DATA_FREE(ins, r->to);
+		r->to=NULL;
 		r->from=str2data(arg->key, &e, ins);
 		if(e){
 			free(r);
@@ -35,6 +36,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}
 		arg=arg->next;
 	}
+	if(r->from==NULL){
+		free(r);
+		return EINVAL;
+	}
 	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
diff --git a/modules/inter/SCORE-TRAIN.c b/modules/inter/SCORE-TRAIN.c
index 714501e..cb05880 100644
--- a/modules/inter/SCORE-TRAIN.c
+++ b/modules/inter/SCORE-TRAIN.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <limits.h>
 #include <stdint.h>
 #include <stdio.h>
@@ -12,16 +13,21 @@ struct my_s{
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=malloc(sizeof(struct my_s));
-	char buf[256]={0};
+	char buf[PATH_MAX]={0};
 	char *p=getenv("BSDCONV_SCORE");
 	if(p==NULL){
-		strcpy(buf,getenv("HOME"));
-		strcat(buf,"/.bsdconv.score");
+		p=getenv("HOME");
+		snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p ? p : "");
 		p=buf;
 	}
 	r->bak=fopen(p,"a"); //ensure file existence
-	fclose(r->bak);
+	if(r->bak)
+		fclose(r->bak);
 	r->bak=r->score=fopen(p,"rb+");
+	if(r->bak==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->list=NULL;
 	THIS_CODEC(ins)->priv=r;
 	return 0;
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 34b5fc5..1eba517 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -14,7 +14,7 @@ struct my_s{
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=malloc(sizeof(struct my_s));
-	char buf[256]={0};
+	char buf[PATH_MAX]={0};
 	r->bak=NULL;
 	r->score=NULL;
 	r->scorer=NULL;
@@ -22,11 +22,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *scorer="CJK";
 	char *counter="SCORE";
 	while(arg){
-		if(strcasecmp(arg->key, "WITH")==0){
+		if(strcasecmp(arg->key, "WITH")==0 && arg->ptr){
 			scorer=arg->ptr;
-		}else if(strcasecmp(arg->key, "AS")==0){
+		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
@@ -36,8 +37,8 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		char *p=getenv("BSDCONV_SCORE");
 		if(p==NULL){
 			//try default score file
-			strcpy(buf,getenv("HOME"));
-			strcat(buf,"/.bsdconv.score");
+			p=getenv("HOME");
+			snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p ? p : "");
 			p=buf;
 		}
 		r->bak=r->score=fopen(p,"rb+");
@@ -79,7 +80,7 @@ void cbconv(struct bsdconv_instance *ins){
 	FILE *fp=r->score;
 	int i;
 	uint32_t ucs=0;
-	unsigned char v;
+	unsigned char v=0;
 	uint32_t score;
 	data=this_phase->curr->data;
 
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 0ab01cd..55b0a05 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -23,9 +23,9 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *after="010A";
 	char *before=NULL;
 	while(arg){
-		if(strcasecmp(arg->key, "FOR")==0){
+		if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
 		}else if(strcasecmp(arg->key, "AFTER")==0){
 			after=arg->ptr;
@@ -49,6 +49,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		if(i){
 			if(r->after)
 				DATA_FREE(ins, r->after);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
@@ -61,6 +62,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				DATA_FREE(ins, r->after);
 			if(r->before)
 				DATA_FREE(ins, r->before);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
diff --git a/modules/to/BSDCONV-LOG.c b/modules/to/BSDCONV-LOG.c
index 533e5ec..eda9071 100644
--- a/modules/to/BSDCONV-LOG.c
+++ b/modules/to/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,9 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_TO_LOG"),"a");
+	char *path=getenv("BSDCONV_TO_LOG");
+	if(path==NULL || (THIS_CODEC(ins)->priv=fopen(path,"a"))==NULL)
+		return EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index ab6b147..a24bfcf 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -38,7 +38,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return e;
 			}
-		}else if(strcasecmp(arg->key, "MODE")==0){
+		}else if(strcasecmp(arg->key, "MODE")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
 				r->mode=16;
 			}else if(strcasecmp(arg->ptr, "DEC")==0 || strcasecmp(arg->ptr, "10")==0){
@@ -51,7 +51,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return EINVAL;
 			}
-		}else if(strcasecmp(arg->key, "FOR")==0){
+		}else if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
 				r->filter=1;
 			}else if(strcasecmp(arg->ptr, "BYTE")==0 || strcasecmp(arg->ptr, "3")==0 || strcasecmp(arg->ptr, "03")==0){
diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index ed0f25e..866aaff 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -57,7 +57,7 @@ int str2datum(const char *s, struct data_rt *d){
 	d->len=0;
 	if(!s)
 		return EINVAL;
-	d->data=malloc(strlen(s)/2);
+	d->data=malloc(strlen(s)/2+1);
 	d->flags=F_FREE;
 	d->next=NULL;
 	char f=0;
@@ -110,7 +110,7 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 		t->next=NULL;
 		t->len=0;
 		t->flags=F_FREE;
-		t->data=malloc(strlen(k)/2);
+		t->data=malloc(strlen(k)/2+1);
 		f=0;
 		while(*k){
 			if(hex[(unsigned char) *k]<0){
-- 
2.43.0


From 1e70f2fef4380841af38d6eab89937074a2956fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:44 +0000
Subject: [PATCH 26/71] fix: inter/SCORE-TRAIN lowered or misplaced counts
 after a failed read or seek

---
 modules/inter/SCORE-TRAIN.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/modules/inter/SCORE-TRAIN.c b/modules/inter/SCORE-TRAIN.c
index cb05880..dfaa75c 100644
--- a/modules/inter/SCORE-TRAIN.c
+++ b/modules/inter/SCORE-TRAIN.c
@@ -70,16 +70,18 @@ void cbconv(struct bsdconv_instance *ins){
 			ucs<<=8;
 			ucs|=data[i];
 		}
-		fseek(r->score, ucs*sizeof(unsigned char), SEEK_SET);
-		fread(&v, sizeof(unsigned char), 1, r->score);
-		if(v==0 && r->list){
-			ucs4=htobe32(ucs);
-			fwrite(&ucs4, sizeof(uint32_t), 1, r->list);
-		}
-		if(v<3){
-			v+=1;
-			fseek(r->score, ucs*sizeof(unsigned char), SEEK_SET);
-			fwrite(&v, sizeof(unsigned char), 1, r->score);
+		/* never derive a count from a failed read, nor write it to an unknown position */
+		clearerr(r->score);
+		if(fseek(r->score, ucs*sizeof(unsigned char), SEEK_SET)==0 && (fread(&v, sizeof(unsigned char), 1, r->score)==1 || !ferror(r->score))){
+			if(v==0 && r->list){
+				ucs4=htobe32(ucs);
+				fwrite(&ucs4, sizeof(uint32_t), 1, r->list);
+			}
+			if(v<3){
+				v+=1;
+				if(fseek(r->score, ucs*sizeof(unsigned char), SEEK_SET)==0)
+					fwrite(&v, sizeof(unsigned char), 1, r->score);
+			}
 		}
 	}
 
-- 
2.43.0


From 7b7f23e60bbcf02b663d1d8b637f4e7288eb11ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:08 +0000
Subject: [PATCH 27/71] fix: bsdconv-mktable read past the case table for
 entries marked with !

---
 src/bsdconv-mktable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 6ad1cc3..b8c0b4a 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -75,7 +75,7 @@ struct hash{
 };
 
 char table[256]={};
-char ci_table[256]={0};
+char ci_table[257]={0};
 
 uintptr_t offset=0;
 struct m_state_st *state_r, *state_t, holder;
-- 
2.43.0


From 2a4532d5738f069542a2fec127876371dc7854fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:31 +0000
Subject: [PATCH 28/71] fix: bsdconv-mktable crashed or made up entries on
 incomplete lines

---
 src/bsdconv-mktable.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index b8c0b4a..63235a1 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -240,14 +240,19 @@ int main(int argc, char *argv[]){
 		if(inbuf[0]=='#') continue;
 		tmp=inbuf;
 		f=of=strsep((char **)&tmp, "\t ");
-		while(strchr("\t ",*tmp)){
+		if(tmp==NULL) continue; //no output column
+		while(*tmp=='\t' || *tmp==' '){
 			++tmp;
 		}
-		if(*tmp){
-			t=ot=strsep((char **)&tmp, "\t\r\n# ");
-		}else{
-			t=ot=NULL;
-		}
+		t=ot=strsep((char **)&tmp, "\t\r\n# ");
+
+		//key has to be made of complete units
+		k=strlen(f);
+		i=(*f=='!');
+		if(i==k) continue;
+		while(i<k)
+			i+=(f[i]=='*' || f[i]==',')?1:2;
+		if(i!=k) continue;
 
 		todo=malloc(sizeof(struct states));
 		todo->n=NULL;
-- 
2.43.0


From 19bec316dc44f3acf8c08d3056b8a870c9017063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:41 +0000
Subject: [PATCH 29/71] fix: bsdconv-mktable reported success after a failed
 read or write

---
 src/bsdconv-mktable.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 63235a1..e871fd5 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -433,6 +433,10 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		todo=NULL;
 	}
 	free(newtodo);
+	if(ferror(fp)){
+		fprintf(stderr, "Failed reading input file %s.\n", argv[1]);
+		exit(1);
+	}
 	fclose(fp);
 	free(holder.base);
 
@@ -447,7 +451,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 	//Write
 	fp=fopen(argv[2], "wb+");
 	if(!fp){
-		fprintf(stderr, "Failed opening input file %s.\n", argv[1]);
+		fprintf(stderr, "Failed opening output file %s.\n", argv[2]);
 		exit(1);
 	}
 	state_t=state_r;
@@ -586,7 +590,12 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		data_t=data_t->n;
 		FFREE(tofree);
 	}
-	fclose(fp);
+	i=ferror(fp);
+	if(fclose(fp) || i){
+		fprintf(stderr, "Failed writing output file %s.\n", argv[2]);
+		unlink(argv[2]);
+		exit(1);
+	}
 	printf("Total size: %u\n", (unsigned int)offset);
 
 #ifdef USE_FMALLOC
-- 
2.43.0


From afa4d2caa41e1be36e1610e242c6bb0d3ce64587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 30/71] fix: empty replacement that is the beginning of a
 longer entry lost data or hung

---
 src/libbsdconv.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index f00a643..8608583 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -772,16 +772,12 @@ void bsdconv(struct bsdconv_instance *ins){
 						if(this_phase->flags & F_MATCH){
 							if(this_phase->match_data){
 								LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
-
-								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
-
-								//resume right after the matched part
-								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-								this_phase->curr=prev_phase->data_head;
 							}
+							//resume right after the matched part
+							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+							this_phase->curr=prev_phase->data_head;
 
 							this_phase->flags &= ~F_MATCH;
 							RESET(ins->phase_index);
@@ -908,16 +904,12 @@ void bsdconv(struct bsdconv_instance *ins){
 						if(this_phase->flags & F_MATCH){
 							if(this_phase->match_data){
 								LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
-
-								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
-
-								//resume right after the matched part
-								LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-								this_phase->curr=prev_phase->data_head;
 							}
+							//resume right after the matched part
+							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+							this_phase->curr=prev_phase->data_head;
 
 							this_phase->flags &= ~F_MATCH;
 							RESET(ins->phase_index);
-- 
2.43.0


From acf494f2e1b9f1146d67afafdfb0e83fea5d135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 31/71] fix: bsdconv-mktable wrote leftover memory into tables

---
 src/bsdconv-mktable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index e871fd5..5ab3b22 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -448,6 +448,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 		state_t=state_t->n;
 	}
 
+	memset(&dstate, 0, sizeof(dstate)); //including padding
 	//Write
 	fp=fopen(argv[2], "wb+");
 	if(!fp){
-- 
2.43.0


From 9fb1f6cd83e92319217cda4cb27c1644eb439254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 32/71] fix: bsdconv-completion read before an empty argument

---
 src/bsdconv-completion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-completion.c b/src/bsdconv-completion.c
index 8a3aaee..e24606f 100644
--- a/src/bsdconv-completion.c
+++ b/src/bsdconv-completion.c
@@ -32,7 +32,7 @@ int main(int argc, char *argv[]){
 		arg+=1;
 	}
 	i=strlen(arg)-1;
-	if(arg[i]=='\'' || arg[i]=='"'){
+	if(i>=0 && (arg[i]=='\'' || arg[i]=='"')){
 		arg[i]=0;
 	}
 
-- 
2.43.0


From e2850e3c3e9dccb88c651683b0310d19125d9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 33/71] fix: rest of a long alias line was listed as a module

---
 src/libbsdconv_module.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 935b06f..21d61ab 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -115,6 +115,8 @@ char ** bsdconv_modules_list(int phase_type){
 	struct dirent *d;
 	FILE *fp;
 	char buf[256];
+	int bol=1; //at the beginning of a line
+	int head;
 	const char *type;
 	list[0]=NULL;
 	switch(phase_type){
@@ -174,7 +176,9 @@ char ** bsdconv_modules_list(int phase_type){
 	free(path);
 	if(fp!=NULL){
 		while(fgets(buf, sizeof(buf), fp)!=NULL){
-			if(buf[0]=='#')
+			head=bol;
+			bol=(strchr(buf, '\n')!=NULL);
+			if(!head || buf[0]=='#')
 				continue;
 			if(length>=size){
 				size+=8;
-- 
2.43.0


From 448622671d8714f917ab9d5586a11d02fb49d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:14 +0000
Subject: [PATCH 34/71] fix: stateful target not first in its list lost
 characters at chunk borders and the closing shift

---
 modules/inter/WHITESPACE-DERAIL.c |  3 +--
 modules/inter/WHITESPACE-RERAIL.c |  8 ++------
 modules/to/EBCDIC.c               | 33 ++++---------------------------
 src/bsdconv.h                     |  1 +
 src/libbsdconv.c                  | 10 ++++++++++
 5 files changed, 18 insertions(+), 37 deletions(-)

diff --git a/modules/inter/WHITESPACE-DERAIL.c b/modules/inter/WHITESPACE-DERAIL.c
index 46e9b2e..9d5f5d1 100644
--- a/modules/inter/WHITESPACE-DERAIL.c
+++ b/modules/inter/WHITESPACE-DERAIL.c
@@ -71,8 +71,7 @@ void cbconv(struct bsdconv_instance *ins){
 			q->len=t->offsetA;
 
 			if(t->rerail > this_phase){ //an earlier phase would hand it back here forever
-				t->rerail->flags |= (F_MATCH | F_PENDING);
-				t->rerail->match_data = NULL;
+				t->rerail->flags |= F_HELD;
 			}
 
 			return;
diff --git a/modules/inter/WHITESPACE-RERAIL.c b/modules/inter/WHITESPACE-RERAIL.c
index 9592bbc..4871a39 100644
--- a/modules/inter/WHITESPACE-RERAIL.c
+++ b/modules/inter/WHITESPACE-RERAIL.c
@@ -49,9 +49,6 @@ void cbflush(struct bsdconv_instance *ins){
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	struct data_rt *q;
 
-	//everything matched has been passed on
-	this_phase->bak=PREV_PHASE(ins)->data_head->next;
-
 	while(t->queue){
 		this_phase->data_tail->next=t->queue->data;
 		this_phase->data_tail=this_phase->data_tail->next;
@@ -102,11 +99,10 @@ void cbconv(struct bsdconv_instance *ins){
 	}
 
 	if(t->queue){
-		this_phase->flags |= (F_MATCH | F_PENDING);
+		this_phase->flags |= F_HELD;
 	}else{
-		this_phase->flags &= ~(F_MATCH | F_PENDING);
+		this_phase->flags &= ~F_HELD;
 	}
-	this_phase->match_data=NULL;
 
 	return;
 }
diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index 81252cf..a26f1da 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -22,10 +22,6 @@ void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
 
-	//everything matched has been passed on
-	this_phase->bak=PREV_PHASE(ins)->data_head->next;
-
-	this_phase->flags &= ~F_PENDING;
 	if(t->status!=0){
 		t->status=0;
 
@@ -37,8 +33,6 @@ void cbflush(struct bsdconv_instance *ins){
 		this_phase->data_tail->data=malloc(1);
 		*CP(this_phase->data_tail->data)='\x0F';
 	}
-
-	this_phase->state.status=NEXTPHASE;
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
@@ -48,7 +42,6 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
-	struct bsdconv_phase *prev_phase=&ins->phase[ins->phase_index-1];
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	struct data_st data;
 	struct data_rt *data_ptr;
@@ -57,7 +50,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 	if(data.len>1 && t->status==0){
 		t->status=1;
-		this_phase->flags |= F_PENDING;
+		this_phase->flags |= F_HELD;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
 		this_phase->data_tail=this_phase->data_tail->next;
@@ -68,7 +61,7 @@ void cbconv(struct bsdconv_instance *ins){
 		*CP(this_phase->data_tail->data)='\x0E';
 	}else if(data.len==1 && t->status!=0){
 		t->status=0;
-		this_phase->flags &= ~F_PENDING;
+		this_phase->flags &= ~F_HELD;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
 		this_phase->data_tail=this_phase->data_tail->next;
@@ -79,25 +72,7 @@ void cbconv(struct bsdconv_instance *ins){
 		*CP(this_phase->data_tail->data)='\x0F';
 	}
 
-	if(t->status){
-		LISTCPY_ST(ins, this_phase->data_tail, this_phase->state.data, this_phase->codec[this_phase->index].data_z);
-
-		this_phase->data_head->len=0;
-		this_phase->flags |= (F_MATCH | F_PENDING);
-		this_phase->match_data=NULL;
-
-		this_phase->bak=this_phase->curr->next;
-		LISTFREE(ins, prev_phase->data_head,this_phase->bak,prev_phase->data_tail);
-		this_phase->curr=prev_phase->data_head;
+	LISTCPY_ST(ins, this_phase->data_tail, this_phase->state.data, this_phase->codec[this_phase->index].data_z);
 
-		RESET(ins->phase_index);
-
-		ins->phase_index+=1;
-
-		this_phase->state.status=NOOP;
-	}else{
-		LISTCPY_ST(ins, this_phase->data_tail, this_phase->state.data, this_phase->codec[this_phase->index].data_z);
-
-		this_phase->state.status=NEXTPHASE;
-	}
+	this_phase->state.status=NEXTPHASE;
 }
diff --git a/src/bsdconv.h b/src/bsdconv.h
index df5cc5c..1cbac26 100644
--- a/src/bsdconv.h
+++ b/src/bsdconv.h
@@ -25,6 +25,7 @@ extern "C" {
 #define F_MATCH 1
 #define F_PENDING 2
 #define F_LOOPBACK 4
+#define F_HELD 8 //a codec has something to emit when the input ends, see cbflush()
 
 #define en_offset(X) htole32(X)
 #define de_offset(X) le32toh(X)
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 8608583..089989e 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1028,6 +1028,16 @@ void bsdconv(struct bsdconv_instance *ins){
 					case INTER:	goto inter_deadend;
 					case TO:	goto to_deadend;
 				}
+			}else if(THIS_PHASE(ins)->flags & F_HELD){
+				this_phase=THIS_PHASE(ins);
+				this_phase->flags &= ~F_HELD;
+				for(this_phase->index=0;this_phase->index<=this_phase->codecn;++this_phase->index){
+					if(THIS_CODEC(ins)->cbflush)
+						THIS_CODEC(ins)->cbflush(ins);
+				}
+				RESET(ins->phase_index);
+				ins->phase_index+=1;
+				goto phase_begin;
 			}
 		}
 	}
-- 
2.43.0


From 70e7e7d9a93c54d859182f75e4189a877e106327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 35/71] fix: inter/_NF-HANGUL-COMPOSITION kept an endless run
 of syllables queued until a flush

---
 modules/inter/_NF-HANGUL-COMPOSITION.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/inter/_NF-HANGUL-COMPOSITION.c b/modules/inter/_NF-HANGUL-COMPOSITION.c
index da17b65..9744505 100644
--- a/modules/inter/_NF-HANGUL-COMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-COMPOSITION.c
@@ -29,6 +29,8 @@ void cbconv(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct bsdconv_phase *prev_phase=&ins->phase[ins->phase_index-1];
+	struct data_rt *data_ptr;
 	data=this_phase->curr->data;
 	int i;
 	uint32_t ucs=0;
@@ -40,6 +42,11 @@ void cbconv(struct bsdconv_instance *ins){
 			ucs|=data[i];
 		}
 
+		if(r->status!=0){
+			//earlier packets are kept as the pending character, do not collect them until the end of the run of syllables
+			LISTFREE(ins, prev_phase->data_head, this_phase->curr, prev_phase->data_tail);
+		}
+
 		switch(r->status){
 			case 0:
 				LIndex = ucs - LBase;
-- 
2.43.0


From 8102fce8371cad864edf42678ac9d04e04caafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 36/71] fix: from/ESCAPE compared octal escapes against decimal
 377, \400 to \571 were taken as bytes

---
 modules/from/ESCAPE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index 3ee9eec..7a39ad9 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -126,7 +126,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=t->buf[0];
 					i*=8;
 					i+=oct[(unsigned char)d];
-					if(i>377)
+					if(i>0377)
 						DEADEND();
 					t->buf[0]=i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
-- 
2.43.0


From b01a9c796f342ad8b8b94fe72b668a64decf3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 37/71] fix: from/_GB18030 decoded four byte sequences led by
 D9 as if led by D0

---
 modules/from/_GB18030.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 41077d3..7ad0866 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -23628,7 +23628,7 @@ D8FB	014F67
 D8FC	016538
 D8FD	014F5A
 D8FE	014F5D
-D9*	?D0
+D9*	?D9
 D940	018CAE
 D941	018CAF
 D942	018CB0
-- 
2.43.0


From b35b7cf201e646f829014c912464230046cfb782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 38/71] fix: from/_GB18030 had no entry for four byte sequences
 from 82359030 to 8239FE39

---
 modules/from/_GB18030.txt | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 7ad0866..0642d74 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -3587,6 +3587,7 @@
 81FC	014F9F
 81FD	014FA1
 81FE	014FA2
+82*	?82
 8230*		?8230
 82308130	0134A3
 82308131	0134A4
@@ -6406,6 +6407,7 @@
 82358E37	014DFA
 82358E38	014DFB
 82358E39	014DFC
+8235*		?8235
 82358F*		?82358F
 82358F30	014DFD
 82358F31	014DFE
-- 
2.43.0


From 348d641d44413b0f0d344e0387f3cb7e09f6e1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 39/71] fix: to/_GB18030 could not encode most of
 U+9FA6..U+FFFF, the entries of U+0080..U+00FF hid the callback

---
 modules/to/_GB18030.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/to/_GB18030.txt b/modules/to/_GB18030.txt
index 7d7001b..3f8c556 100644
--- a/modules/to/_GB18030.txt
+++ b/modules/to/_GB18030.txt
@@ -1,4 +1,5 @@
 01*	?
+01**	?
 010100	81308B38
 010101	A8A1
 010102	81308B39
-- 
2.43.0


From b310615f612cb299e0c80a083d78615c92430f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 40/71] fix: from/_UTF-8 accepted code points over U+10FFFF
 without SUPER

---
 modules/from/_UTF-8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 2a60741..7fe03e5 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -65,6 +65,9 @@ void cbdestroy(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;	\
 	t->status = 0;	\
 	uint32_t ucs = be32toh(t->ucs.ucs4);	\
+	if(ucs > 0x10FFFF && !t->super){	\
+		DEADEND();	\
+	}	\
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
-- 
2.43.0


From a3c8d27d9d3b7f56c8e777a55483b5226a9ca6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 41/71] fix: from/_UTF-8#CESU lost bit 16 of surrogate pairs
 for odd planes

---
 modules/from/_UTF-8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 7fe03e5..f29c770 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -94,7 +94,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
 				uint32_t cp = 0x10000;	\
-				cp |= ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
+				cp += ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
 				cp |= (ucs - 0xDC00) & bb1111111111;	\
 				t->ucs.ucs4 = htobe32(cp);	\
 				PASS(t->ucs);	\
-- 
2.43.0


From c5fcec4c38b65fc653f20ea2587f0e80ada14b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 42/71] fix: mktable folded case of entries marked with ! only
 for keys in lower case

---
 src/bsdconv-mktable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 5ab3b22..5ba4ff8 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -178,9 +178,9 @@ int main(int argc, char *argv[]){
 	}
 
 	/* case insensitive table */
-	for(i=0;i<=26;++i){
+	for(i=0;i<26;++i){
 		ci_table['A'+i]='a'+i;
-		ci_table['a']='A'+i;
+		ci_table['a'+i]='A'+i;
 	}
 
 	if(argc!=3){
-- 
2.43.0


From 73d54a826ff4f87045b5f6230c32c49c987075fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 43/71] fix: mktable cut off longer entries when an entry they
 begin with was replaced

---
 src/bsdconv-mktable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 5ba4ff8..b8f0d44 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -413,6 +413,9 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							state_t->level=todo_item->state->base[c]->level;
 							DPRINTF("%p SUBROUTINE -> MATCH: %p\n", todo_item->state->base[c], state_t);
 							todo_item->state->base[c]=state_t;
+						}else if(todo_item->state->base[c]->status==SUBMATCH || todo_item->state->base[c]->status==SUBMATCH_SUBROUTINE){
+							//longer entries go on from here
+							todo_item->state->base[c]->status=SUBMATCH;
 						}else{
 							DPRINTF("%p %d -> MATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
 							todo_item->state->base[c]->status=MATCH;
-- 
2.43.0


From 1e9834227022de5563f63e718c02a3b30c835412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 44/71] fix: to/EBCDIC converted characters which only begin
 with an entry, U+0100 to 0x01

---
 modules/to/EBCDIC.c |  5 +++++
 src/bsdconv.h       | 27 +++++++++++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index a26f1da..dbf8f6a 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -46,6 +46,11 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	struct data_rt *data_ptr;
 
+	if(!whole_entry(ins)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
 	if(data.len>1 && t->status==0){
diff --git a/src/bsdconv.h b/src/bsdconv.h
index 1cbac26..272a502 100644
--- a/src/bsdconv.h
+++ b/src/bsdconv.h
@@ -376,6 +376,33 @@ static inline void move_output_rt(struct bsdconv_instance *ins, struct bsdconv_p
 	}
 	last->data_tail=last->data_head;
 }
+
+//whether the characters up to the current one are those of a table entry as a whole,
+//a callback is also given characters which only begin with the entry
+static inline int whole_entry(struct bsdconv_instance *ins){
+	struct bsdconv_codec *codec=THIS_CODEC(ins);
+	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct data_rt *data=PREV_PHASE(ins)->data_head;
+	struct state_rt state=read_state(codec, 0);
+	offset_t offset;
+	int i, begun=0;
+	do{
+		data=data->next;
+		for(i=0;i<data->len;++i){
+			if(begun && i==0){
+				if(!(offset=get_offset(codec, &state, 256)))
+					return 0;
+				state=read_state(codec, offset);
+			}
+			if(!(offset=get_offset(codec, &state, UCP(data->data)[i])))
+				return 0;
+			state=read_state(codec, offset);
+		}
+		if(data->len)
+			begun=1;
+	}while(data!=this_phase->curr);
+	return 1;
+}
 #endif
 
 static inline void strtoupper(char *s){
-- 
2.43.0


From 82c4b9e2b434e58a78c8294e50d2ca72b600d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 45/71] fix: inter/BONUS converted characters which only begin
 with an entry, U+2345 to U+0023

---
 modules/inter/BONUS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/inter/BONUS.c b/modules/inter/BONUS.c
index b307c64..aae33e5 100644
--- a/modules/inter/BONUS.c
+++ b/modules/inter/BONUS.c
@@ -12,6 +12,12 @@ void cbconv(struct bsdconv_instance *ins){
 	unsigned char *data;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct data_st data_st;
+
+	if(!whole_entry(ins)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data_st, (char *)((this_phase->codec[this_phase->index].data_z)+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	data=UCP((THIS_CODEC(ins)->data_z)+(uintptr_t)de_offset(data_st.data));
 
-- 
2.43.0


From d3631165137388caabc65e0090f825cf76533882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:58 +0000
Subject: [PATCH 46/71] fix: characters not in a table were matched to a
 shorter one when a callback had been passed

---
 src/libbsdconv.c | 58 ++++++++++++++++++++++++++++++------------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 089989e..92f56ef 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -745,12 +745,12 @@ void bsdconv(struct bsdconv_instance *ins){
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
-					if(next){
-						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
-						this_phase->offset=0;
+					if(next==0 && (this_phase->flags & F_LOOPBACK)){
+						//not in the table, it is up to the callback passed last
+						this_phase->state=read_state(this_codec, this_phase->offset);
+						break;
 					}
-					this_phase->state=read_state(this_codec, this_phase->offset);
+					this_phase->state=read_state(this_codec, next);
 					switch(this_phase->state.status){
 						case DEADEND:
 							goto inter_deadend;
@@ -758,6 +758,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							this_phase->offset = next;
 							break;
 					}
 				}
@@ -861,13 +862,19 @@ void bsdconv(struct bsdconv_instance *ins){
 
 				}
 				offset_t next = get_offset(this_codec, &this_phase->state, 256);
-				if(next){
-					this_phase->offset = next;
-				}else if(!(this_phase->flags & F_LOOPBACK)){
-					this_phase->offset=0;
+				if(next==0 && (this_phase->flags & F_LOOPBACK)){
+					next = this_phase->offset;
+				}
+				this_phase->state=read_state(this_codec, next);
+				switch(this_phase->state.status){
+					case DEADEND:
+						goto inter_deadend;
+						break;
+					case SUBROUTINE:
+					case SUBMATCH_SUBROUTINE:
+						this_phase->offset = next;
+						break;
 				}
-				this_phase->state=read_state(this_codec, this_phase->offset);
-				if(this_phase->state.status==DEADEND){ goto inter_deadend;}
 			}
 			break;
 
@@ -878,12 +885,12 @@ void bsdconv(struct bsdconv_instance *ins){
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
-					if(next){
-						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
-						this_phase->offset=0;
+					if(next==0 && (this_phase->flags & F_LOOPBACK)){
+						//not in the table, it is up to the callback passed last
+						this_phase->state=read_state(this_codec, this_phase->offset);
+						break;
 					}
-					this_phase->state=read_state(this_codec, this_phase->offset);
+					this_phase->state=read_state(this_codec, next);
 					switch(this_phase->state.status){
 						case DEADEND:
 							goto to_deadend;
@@ -891,6 +898,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							this_phase->offset = next;
 							break;
 					}
 				}
@@ -992,13 +1000,19 @@ void bsdconv(struct bsdconv_instance *ins){
 						goto phase_begin;
 				}
 				offset_t next = get_offset(this_codec, &this_phase->state, 256);
-				if(next){
-					this_phase->offset = next;
-				}else if(!(this_phase->flags & F_LOOPBACK)){
-					this_phase->offset=0;
+				if(next==0 && (this_phase->flags & F_LOOPBACK)){
+					next = this_phase->offset;
+				}
+				this_phase->state=read_state(this_codec, next);
+				switch(this_phase->state.status){
+					case DEADEND:
+						goto to_deadend;
+						break;
+					case SUBROUTINE:
+					case SUBMATCH_SUBROUTINE:
+						this_phase->offset = next;
+						break;
 				}
-				this_phase->state=read_state(this_codec, this_phase->offset);
-				if(this_phase->state.status==DEADEND){ goto to_deadend;}
 			}
 			break;
 		}
-- 
2.43.0


From 024b33bd400fee13e4ec4cb430181cdf1dc15a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 47/71] fix: CP1253 wrote none of the characters listed with a
 superfluous 00 byte

---
 modules/to/_CP1253.txt | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/modules/to/_CP1253.txt b/modules/to/_CP1253.txt
index b776acd..bd0407f 100644
--- a/modules/to/_CP1253.txt
+++ b/modules/to/_CP1253.txt
@@ -17,35 +17,35 @@
 012014	97
 012122	99
 01203A	9B
-0100A0	A0
+01A0	A0
 010385	A1
 010386	A2
-0100A3	A3
-0100A4	A4
-0100A5	A5
-0100A6	A6
-0100A7	A7
-0100A8	A8
-0100A9	A9
-0100AB	AB
-0100AC	AC
-0100AD	AD
-0100AE	AE
+01A3	A3
+01A4	A4
+01A5	A5
+01A6	A6
+01A7	A7
+01A8	A8
+01A9	A9
+01AB	AB
+01AC	AC
+01AD	AD
+01AE	AE
 012015	AF
-0100B0	B0
-0100B1	B1
-0100B2	B2
-0100B3	B3
+01B0	B0
+01B1	B1
+01B2	B2
+01B3	B3
 010384	B4
-0100B5	B5
-0100B6	B6
-0100B7	B7
+01B5	B5
+01B6	B6
+01B7	B7
 010388	B8
 010389	B9
 01038A	BA
-0100BB	BB
+01BB	BB
 01038C	BC
-0100BD	BD
+01BD	BD
 01038E	BE
 01038F	BF
 010390	C0
-- 
2.43.0


From a89d91b1d8c763ba77421cbca76dc1fbf8b5e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 48/71] fix: CP874 did not write the no-break space (key with a
 superfluous 00 byte)

---
 modules/to/_CP874.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/to/_CP874.txt b/modules/to/_CP874.txt
index be22c7a..addafe8 100644
--- a/modules/to/_CP874.txt
+++ b/modules/to/_CP874.txt
@@ -8,7 +8,7 @@
 012022	95
 012013	96
 012014	97
-0100A0	A0
+01A0	A0
 010E01	A1
 010E02	A2
 010E03	A3
-- 
2.43.0


From aef2b28487927655bf97824c4098b80ab69568a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 49/71] fix: GB2312 did not write characters below U+0100 (keys
 with a superfluous 00 byte)

---
 modules/to/_GB2312.txt | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 00fab10..37e995f 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -5,7 +5,7 @@ source:	#data
 0130FB	2124
 0102C9	2125
 0102C7	2126
-0100A8	2127
+01A8	2127
 013003	2128
 013005	2129
 012015	212A
@@ -30,9 +30,9 @@ source:	#data
 013017	213D
 013010	213E
 013011	213F
-0100B1	2140
-0100D7	2141
-0100F7	2142
+01B1	2140
+01D7	2141
+01F7	2142
 012236	2143
 012227	2144
 012228	2145
@@ -65,16 +65,16 @@ source:	#data
 012234	2160
 012642	2161
 012640	2162
-0100B0	2163
+01B0	2163
 012032	2164
 012033	2165
 012103	2166
 01FF04	2167
-0100A4	2168
+01A4	2168
 01FFE0	2169
 01FFE1	216A
 012030	216B
-0100A7	216C
+01A7	216C
 012116	216D
 012606	216E
 012605	216F
@@ -543,31 +543,31 @@ source:	#data
 01044E	2770
 01044F	2771
 010101	2821
-0100E1	2822
+01E1	2822
 0101CE	2823
-0100E0	2824
+01E0	2824
 010113	2825
-0100E9	2826
+01E9	2826
 01011B	2827
-0100E8	2828
+01E8	2828
 01012B	2829
-0100ED	282A
+01ED	282A
 0101D0	282B
-0100EC	282C
+01EC	282C
 01014D	282D
-0100F3	282E
+01F3	282E
 0101D2	282F
-0100F2	2830
+01F2	2830
 01016B	2831
-0100FA	2832
+01FA	2832
 0101D4	2833
-0100F9	2834
+01F9	2834
 0101D6	2835
 0101D8	2836
 0101DA	2837
 0101DC	2838
-0100FC	2839
-0100EA	283A
+01FC	2839
+01EA	283A
 013105	2845
 013106	2846
 013107	2847
-- 
2.43.0


From 5ade4dd56a1adc6e4ce5dc5a987c3aed62af9bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 50/71] fix: CP932 read some bytes as malformed code points
 (outputs with a superfluous 00 byte)

---
 modules/from/_CP932.txt | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/modules/from/_CP932.txt b/modules/from/_CP932.txt
index 0669a23..11cc9c1 100644
--- a/modules/from/_CP932.txt
+++ b/modules/from/_CP932.txt
@@ -74,9 +74,9 @@ DF	01FF9F
 8149	01FF01
 814A	01309B
 814B	01309C
-814C	0100B4
+814C	01B4
 814D	01FF40
-814E	0100A8
+814E	01A8
 814F	01FF3E
 8150	01FFE3
 8151	01FF3F
@@ -123,9 +123,9 @@ DF	01FF9F
 817A	013011
 817B	01FF0B
 817C	01FF0D
-817D	0100B1
-817E	0100D7
-8180	0100F7
+817D	01B1
+817E	01D7
+8180	01F7
 8181	01FF1D
 8182	012260
 8183	01FF1C
@@ -136,7 +136,7 @@ DF	01FF9F
 8188	012234
 8189	012642
 818A	012640
-818B	0100B0
+818B	01B0
 818C	012032
 818D	012033
 818E	012103
@@ -149,7 +149,7 @@ DF	01FF9F
 8195	01FF06
 8196	01FF0A
 8197	01FF20
-8198	0100A7
+8198	01A7
 8199	012606
 819A	012605
 819B	0125CB
@@ -207,7 +207,7 @@ DF	01FF9F
 81F4	01266A
 81F5	012020
 81F6	012021
-81F7	0100B6
+81F7	01B6
 81FC	0125EF
 824F	01FF10
 8250	01FF11
-- 
2.43.0


From a89aaa3158afef772bce452c0af754bbaef23d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 51/71] fix: CP936 reads 80 as the euro sign but did not write
 it

---
 modules/to/_CP936.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/to/_CP936.txt b/modules/to/_CP936.txt
index f3eb772..58bad96 100644
--- a/modules/to/_CP936.txt
+++ b/modules/to/_CP936.txt
@@ -1,4 +1,5 @@
 # transpose from from/cp936
+0120AC	80
 014E02	8140
 014E04	8141
 014E05	8142
-- 
2.43.0


From 8d23186e0591f737d6f2caf0ace28cbd92aa3be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 52/71] fix: ASCIIFOLD folded small g with caron and with
 stroke to a capital

---
 modules/inter/ASCIIFOLD.txt | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/inter/ASCIIFOLD.txt b/modules/inter/ASCIIFOLD.txt
index 7916e6c..7f12303 100644
--- a/modules/inter/ASCIIFOLD.txt
+++ b/modules/inter/ASCIIFOLD.txt
@@ -270,9 +270,9 @@
 0101E2	0141,0145
 0101E3	0161,0165
 0101E4	0147
-0101E5	0147
+0101E5	0167
 0101E6	0147
-0101E7	0147
+0101E7	0167
 0101E8	014B
 0101E9	016B
 0101EA	014F
-- 
2.43.0


From 7ab2da20497f055d34cf94d68157c6e22995c2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 53/71] fix: filter PRINT took U+001F for printable

---
 modules/filter/PRINT.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/filter/PRINT.c b/modules/filter/PRINT.c
index ccdb054..ff87606 100644
--- a/modules/filter/PRINT.c
+++ b/modules/filter/PRINT.c
@@ -1,7 +1,7 @@
 #include "../../src/bsdconv.h"
 
 static const struct uint32_range ranges[] = {
-	{ 0x1F, 0x7E },
+	{ 0x20, 0x7E },
 };
 
 #include "unicode_range.c"
-- 
2.43.0


From 509909041e40464f819cefc07789f21df93844d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 54/71] fix: REPLACE continued a match that a flush had cut off

---
 modules/inter/REPLACE.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index 6e610bb..2561829 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -60,10 +60,15 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	unsigned char *datai=this_phase->curr->data;
-	unsigned char *datar=r->cursor->data;
+	unsigned char *datar;
 	size_t l=this_phase->curr->len;
 	size_t i;
 
+	//a match cut off by a flush is not continued
+	if(this_phase->curr == PREV_PHASE(ins)->data_head->next)
+		r->cursor=r->from;
+	datar=r->cursor->data;
+
 	if(l != r->cursor->len){
 		r->cursor=r->from;
 		this_phase->state.status=DEADEND;
-- 
2.43.0


From d91dd1b7185c74f7d901d2c1561ba37bf8157595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 55/71] fix: AMBIGUOUS-UNPAD removed any U+A0xx after an
 ambiguous character

---
 modules/inter/AMBIGUOUS-UNPAD.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index 1114ee5..e424674 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 
 	if(this_phase->curr->len>1 && data[0]==0x1){
-		if(r->s==1 && data[1]==0xA0){
+		if(r->s==1 && this_phase->curr->len==2 && data[1]==0xA0){
 			r->s=0;
 			return;
 		}else{
-- 
2.43.0


From 445364c50289ed54c3208c3681145f7a9b136edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 56/71] fix: AMBIGUOUS-UNPAD removed a no-break space after an
 unambiguous character

---
 modules/inter/AMBIGUOUS-UNPAD.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index e424674..e5d8198 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -69,9 +69,7 @@ void cbconv(struct bsdconv_instance *ins){
 						break;
 					}
 			}
-			if(pad && r->dopad){
-				r->s=1;
-			}
+			r->s=(pad && r->dopad);
 		}
 		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 		this_phase->data_tail=this_phase->data_tail->next;
-- 
2.43.0


From 2be503f20f977d1fb06e91cabfdd658cc4cf73a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:25 +0000
Subject: [PATCH 57/71] fix: AMBIGUOUS-UNPAD dropped data that is not Unicode

---
 modules/inter/AMBIGUOUS-UNPAD.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index e5d8198..acb72f2 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -71,12 +71,13 @@ void cbconv(struct bsdconv_instance *ins){
 			}
 			r->s=(pad && r->dopad);
 		}
-		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-		this_phase->data_tail=this_phase->data_tail->next;
-		this_phase->data_tail->next=NULL;
 	}else{
 		r->s=0;
 	}
 
+	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+
 	return;
 }
-- 
2.43.0


From 05e15363a30f774cf1e062dee3e8312d656a19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 58/71] fix: GB18030 four byte sequences with bytes out of
 range were converted to other characters

---
 modules/from/_GB18030.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 026e2e6..0ea6f47 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -95,6 +95,9 @@ void cbconv(struct bsdconv_instance *ins){
 				t->status=2;
 				goto next;
 			}
+			if(d<0x30 || d>0x39){
+				DEADEND();
+			}
 			t->ucs+=d;
 			t->ucs*=126;
 			t->status=2;
@@ -106,6 +109,9 @@ void cbconv(struct bsdconv_instance *ins){
 				t->status=3;
 				goto next;
 			}
+			if(d<0x81 || d>0xFE){
+				DEADEND();
+			}
 			t->ucs+=d;
 			t->ucs*=10;
 			t->status=3;
@@ -116,6 +122,9 @@ void cbconv(struct bsdconv_instance *ins){
 				t->status=0;
 				goto next;
 			}
+			if(d<0x30 || d>0x39){
+				DEADEND();
+			}
 			t->ucs+=d;
 			t->status=0;
 			if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-- 
2.43.0


From 87188c5b5980f2c1f77b5ee9adca538c8dc0a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 59/71] fix: CP950-UDA converted pairs whose second byte is
 none to other characters

---
 modules/from/CP950-UDA.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index bd40937..8b506ca 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -63,7 +63,9 @@ void cbconv(struct bsdconv_instance *ins){
 		}
 	}else{
 		uint32_t b = (r->h<<8)|d;
-		if(
+		if(!((d>=0x40 && d<=0x7E) || (d>=0xA1 && d<=0xFE))){
+			this_phase->state.status = DEADEND;
+		}else if(
 			(b>=0xFA40 && b<=0xFEFE)
 			||
 			(b>=0x8E40 && b<=0xA0FE)
-- 
2.43.0


From 561ba550c4e76ee1a1fac8ed5105616fe7ffa8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 60/71] fix: JIS did not know the escape sequence to JIS X
 0212, ESC $ ( D

---
 modules/from/_JIS.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index a00eabf..c57fb28 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -121,6 +121,10 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B24:
 				switch(d){
+					case 0x28:
+						r->state = 0x1B2428;
+						this_phase->state.status = CONTINUE;
+						return;
 					case 0x40:
 						r->state = 0;
 						r->mode = MODE_JIS0208; //1978
@@ -168,6 +172,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 				}
 				break;
+			case 0x1B2428:
 			case 0x1B2824:
 				switch(d){
 					case 0x44:
-- 
2.43.0


From 005316443075f74e502fa9cf5861ee8f3426e01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 61/71] fix: JIS read seven bit katakana (ESC ( I) as ASCII

---
 modules/from/_JIS.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index c57fb28..2f09844 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -8,6 +8,7 @@
 enum {
 	MODE_ASCII,
 	MODE_JIS0201,
+	MODE_JIS0201_KATAKANA, //in seven bits
 	MODE_JIS0208,
 	MODE_JIS0212,
 };
@@ -83,6 +84,10 @@ void cbconv(struct bsdconv_instance *ins){
 						case MODE_JIS0201:
 							codec = &r->jis0201;
 							break;
+						case MODE_JIS0201_KATAKANA:
+							codec = &r->jis0201;
+							d |= 0x80;
+							break;
 						case MODE_JIS0208:
 							codec = &r->jis0208;
 							break;
@@ -156,7 +161,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 					case 0x49:
 						r->state = 0;
-						r->mode = MODE_JIS0201;
+						r->mode = MODE_JIS0201_KATAKANA;
 						r->cstate = read_state(&r->jis0201, 0);
 						this_phase->state.status = NEXTPHASE;
 						return;
-- 
2.43.0


From b6bd5b611ccdc63714fc1462dea19312df2de4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:25 +0000
Subject: [PATCH 62/71] fix: bsdconv_ctl() left the codec it told last as the
 current one of its phase

---
 src/libbsdconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 92f56ef..6b64e9d 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -205,8 +205,9 @@ void bsdconv_init(struct bsdconv_instance *ins){
 }
 
 void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
-	int i, j;
+	int i, j, index;
 	for(i=1;i<=ins->phasen;++i){
+		index=ins->phase[i].index;
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(ins->phase[i].codec[j].cbctl){
 				ins->phase_index=i;
@@ -214,6 +215,7 @@ void bsdconv_ctl(struct bsdconv_instance *ins, int ctl, void *p, int v){
 				ins->phase[i].codec[j].cbctl(ins, ctl, p, v);
 			}
 		}
+		ins->phase[i].index=index;
 	}
 }
 
-- 
2.43.0


From 39a7b4127bafd576c2fc52414af385d855ee0327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 63/71] fix: bsdconv-man aborted on an unknown phase type
 (freed the middle of a string)

---
 src/bsdconv-man.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 9028ad0..0c13279 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -42,7 +42,6 @@ static int man(char *pc){
 		phase_dir="filter";
 	}else{
 		free(phase);
-		free(codec);
 		return 1;
 	}
 
-- 
2.43.0


From cc504bb4cf5120c661dfcbb001fceeefce7d9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 64/71] fix: bsdconv-man followed a redirection read from an
 empty page

---
 src/bsdconv-man.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 0c13279..6bfb82f 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -53,7 +53,7 @@ static int man(char *pc){
 	sprintf(codec_filename, "%s.man", codec);
 	fp=fopen(codec_filename, "rb");
 	if(fp){
-		if(fscanf(fp, ".redirect %s", buf)){
+		if(fscanf(fp, ".redirect %s", buf)==1){
 			fclose(fp);
 			free(codec_filename);
 			free(phase);
-- 
2.43.0


From 856178a95e0ccc2661c801967b6f6f2a6f04794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 65/71] fix: bsdconv-man looped forever on a page that cannot
 be read

---
 src/bsdconv-man.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 6bfb82f..4aaca83 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -65,7 +65,11 @@ static int man(char *pc){
 		do{
 			len=fread(buf, 1, sizeof(buf), fp);
 			fwrite(buf, len, 1, stdout);
-		}while(!feof(fp));
+		}while(!feof(fp) && !ferror(fp));
+		if(ferror(fp)){
+			fprintf(stderr, "Failed reading %s.\n", codec_filename);
+			exit(1);
+		}
 		fclose(fp);
 		free(codec_filename);
 		free(phase);
-- 
2.43.0


From 4c3727402b4a3b51c65f54820cd9f4f999c3d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:14 +0000
Subject: [PATCH 66/71] fix: bsdconv-man reported success when its output could
 not be written

---
 src/bsdconv-man.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bsdconv-man.c b/src/bsdconv-man.c
index 4aaca83..e0c366c 100644
--- a/src/bsdconv-man.c
+++ b/src/bsdconv-man.c
@@ -112,5 +112,9 @@ int main(int argc, char *argv[]){
 	if(r)
 		usage(argv[0]);
 
+	if(fflush(stdout)!=0 || ferror(stdout)){
+		fprintf(stderr, "Failed writing output.\n");
+		r=1;
+	}
 	return r;
 }
-- 
2.43.0


From 4b9412a55449d06ad446e61457f59919447c9742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:02 +0000
Subject: [PATCH 67/71] fix: from/_JIS paired a byte before a broken escape
 sequence with the one after it

---
 modules/from/_JIS.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 2f09844..5cb654d 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -73,6 +73,11 @@ void cbconv(struct bsdconv_instance *ins){
 		case 0:
 			switch(d){
 				case 0x1B:
+					/* what was begun is over, whether or not a designation follows */
+					if(r->mode==MODE_JIS0208)
+						r->cstate = read_state(&r->jis0208, 0);
+					else if(r->mode==MODE_JIS0212)
+						r->cstate = read_state(&r->jis0212, 0);
 					r->state = 0x1B;
 					this_phase->state.status = CONTINUE;
 					return;
-- 
2.43.0


From d71685e78f9746606dfcd641546cd379f6b3b2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:02 +0000
Subject: [PATCH 68/71] fix: from/UTF-16, UTF-32 and numeric entities gave
 U+0000 as a character without a code point, lost at every output

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 modules/from/UTF-16BE.c                  | 2 +-
 modules/from/UTF-16LE.c                  | 2 +-
 modules/from/UTF-32BE.c                  | 2 +-
 modules/from/UTF-32LE.c                  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index b4527b0..02c69fc 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -50,7 +50,7 @@ void cbconv(struct bsdconv_instance *ins){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-				if(t->buf.c[i] || j)
+				if(t->buf.c[i] || j || i==3 /* NUL is 0100 */)
 					ob[j++]=t->buf.c[i];
 			}
 			DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 81e871f..d4da178 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -47,7 +47,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 7bef7da..4c547a9 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 3c30195..610bcfc 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[3]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index b2758ba..99fa6b9 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[0]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
-- 
2.43.0


From 74f42e39ada1174c949f8fc05b71997b4a022de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:02 +0000
Subject: [PATCH 69/71] fix: from/ASCII-NUMERIC-HTML-ENTITY took numbers beyond
 Unicode for other characters, &#4294967361; for A

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index 02c69fc..f141ec7 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -70,6 +70,7 @@ void cbconv(struct bsdconv_instance *ins){
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
+			if(t->buf.i > 0x10FFFF) DEADEND();
 		}else{
 			if(d=='x'){
 				t->status=1000;
-- 
2.43.0


From eefb97c375302a58da3966e1cea74afff160fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:02 +0000
Subject: [PATCH 70/71] fix: from/ASCII-NUMERIC-HTML-ENTITY took &#x; for
 U+0000

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index f141ec7..bcc53a6 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -47,6 +47,7 @@ void cbconv(struct bsdconv_instance *ins){
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
 		if(d==';' && t->status){
+			if(t->tbl==hex && t->status==1000) DEADEND(); //no digit
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-- 
2.43.0


From 5eb76da22fe39efb9204971faf8decc41a513ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:19 +0000
Subject: [PATCH 71/71] fix: to/ASCII-HTML-INFO wrote past its buffer for a
 CNS11643 plane byte above 7F

---
 modules/to/ASCII-HTML-INFO.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/to/ASCII-HTML-INFO.c b/modules/to/ASCII-HTML-INFO.c
index ef3ade9..ee3bde7 100644
--- a/modules/to/ASCII-HTML-INFO.c
+++ b/modules/to/ASCII-HTML-INFO.c
@@ -93,7 +93,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
@@ -105,7 +105,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
-- 
2.43.0

