From 046e8a7b0d87725e0bffb65e9f3dc53801708dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 01/56] fix: array shrink copied the old capacity into the
 smaller block

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 79374b0..15f4bd1 100644
--- a/src/array.c
+++ b/src/array.c
@@ -169,7 +169,7 @@ size_t XArray_Realloc(xarray_t *pArr)
             return 0;
         }
 
-        size_t nCopySize = sizeof(xarray_data_t*) * pArr->nSize;
+        size_t nCopySize = sizeof(xarray_data_t*) * nUsed;
         memcpy(pData, pArr->pData, nCopySize);
 
         free(pArr->pData);
-- 
2.43.0


From 55c4a283d39a32a6965355da6741db8a068e91b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 02/56] fix: a full fixed-size array accepted elements past its
 storage

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 15f4bd1..60b3047 100644
--- a/src/array.c
+++ b/src/array.c
@@ -197,7 +197,7 @@ size_t XArray_CheckSpace(xarray_t *pArr)
         pArr->nAlloc = nAlloc;
     }
     else if (pArr->nUsed >= pArr->nSize)
-        return XArray_Realloc(pArr);
+        return XArray_Realloc(pArr) > pArr->nUsed;
 
     return pArr->pData == NULL ? 0 : 1;
 }
-- 
2.43.0


From 8d607cd335c7dbc5b0591918e5d91ed802ea4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 03/56] fix: deleting an array element left a dangling pointer
 in its place

---
 src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 60b3047..6600bda 100644
--- a/src/array.c
+++ b/src/array.c
@@ -307,7 +307,7 @@ xarray_data_t* XArray_Remove(xarray_t *pArr, size_t nIndex)
 
 void XArray_Delete(xarray_t *pArr, size_t nIndex)
 {
-    xarray_data_t *pData = XArray_Get(pArr, nIndex);
+    xarray_data_t *pData = XArray_Remove(pArr, nIndex);
     if (pData != NULL) XArray_ClearData(pArr, pData);
 }
 
-- 
2.43.0


From f42319ecdf4537b2537f727c6ff490e7958d6be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:54 +0000
Subject: [PATCH 04/56] fix: inserting at the end of an array lost the element

---
 src/array.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/array.c b/src/array.c
index 6600bda..af3ab47 100644
--- a/src/array.c
+++ b/src/array.c
@@ -341,7 +341,11 @@ xarray_data_t* XArray_Insert(xarray_t *pArr, size_t nIndex, xarray_data_t *pData
     if (!XArray_CheckSpace(pArr)) return NULL;
 
     xarray_data_t *pOldData = XArray_Set(pArr, nIndex, pData);
-    if (pOldData == NULL) return NULL;
+    if (pOldData == NULL)
+    {
+        if (nIndex == pArr->nUsed) pArr->nUsed++;
+        return NULL;
+    }
 
     size_t i, nNextIndex = nIndex + 1;
 
-- 
2.43.0


From c1f4c93d2bef3bfc640e7a4081300df93accd9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 05/56] fix: reject tar entries whose content exceeds the
 archive buffer

---
 src/muntar.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/muntar.c b/src/muntar.c
index 3a484c1..b1328e9 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -345,7 +345,14 @@ static int mtar_read_header(mtar_t *tar, mtar_header_t *h)
 		fprintf(stderr,"Error reading header of tar buffer: %s\n",tar->name);
 		return -1;
 	}
-	return raw_to_header(h, &rh);
+	err = raw_to_header(h, &rh);
+	if (err != MTAR_ESUCCESS) return err;
+	/* the content must be all inside the buffer */
+	if (h->size > tar->max - tar->position) {
+		fprintf(stderr,"Error truncated entry in tar buffer: %s\n",tar->name);
+		return MTAR_EREADFAIL;
+	}
+	return MTAR_ESUCCESS;
 }
 
 int mtar_entry_read(mtar_t *tar, void *ptr, int size)
-- 
2.43.0


From bad1ff37098803ec71a610301cba6e14ada11a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:52 +0000
Subject: [PATCH 06/56] fix: never extract tar entries outside of the target
 directory

---
 src/muntar.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/muntar.c b/src/muntar.c
index b1328e9..e5c6af1 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -165,6 +165,18 @@ static int mtar_rewind(mtar_t *tar) {
 #define makedir(path) mkdir(path,0755)
 #endif
 
+// true if any component of the path is ".." so may lead out of target
+static int has_dotdot(const char *path) {
+	const char *p = path;
+	while(*p) {
+		const size_t n = strcspn(p,"/\\");
+		if(n==2 && p[0]=='.' && p[1]=='.') return 1;
+		p += n;
+		if(*p) p++;
+	}
+	return 0;
+}
+
 // used by extract_assets(char *tmpdir)
 int muntar_to_path(const char *path, const uint8_t *buf,
 		  const unsigned int len) {
@@ -187,6 +199,8 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		mtar_header(&tar, &header);
 		switch(header->type) {
 		case MTAR_TDIR:
+			if(has_dotdot(header->path)
+			   || has_dotdot(header->name)) break;
 			if(header->path[0]!=0) { // subdir
 				const size_t subdirlen = strlen(header->path);
 				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
@@ -210,6 +224,8 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 		mtar_header(&tar, &header);
 		switch(header->type) {
 		case MTAR_TREG:
+			if(has_dotdot(header->path)
+			   || has_dotdot(header->name)) break;
 			if(header->path[0]!=0) { // subdir
 				const size_t subdirlen = strlen(header->path);
 				if(p-tpath+subdirlen>1023) return(MTAR_EOPENFAIL);
-- 
2.43.0


From b69abb8a393b04860dcea42313a70bcdaa19b85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 07/56] fix: report failures writing extracted tar entries

---
 src/muntar.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index e5c6af1..e079942 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -159,10 +159,11 @@ static int mtar_rewind(mtar_t *tar) {
 
 #if defined(_WIN32) || defined(WINDOWS)
 #include <windows.h>
-#define makedir(path) CreateDirectory(path, NULL)
+#define makedir(path) \
+	(CreateDirectory(path, NULL) || GetLastError()==ERROR_ALREADY_EXISTS)
 #else
 #include <sys/stat.h>
-#define makedir(path) mkdir(path,0755)
+#define makedir(path) (mkdir(path,0755)==0 || errno==EEXIST)
 #endif
 
 // true if any component of the path is ".." so may lead out of target
@@ -191,7 +192,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 	res = mtar_load(&tar, path, buf, len);
 	if(res != MTAR_ESUCCESS) return(MTAR_EOPENFAIL);
 	// first create extract dir if doesn't exist
-	makedir(tpath);
+	if(!makedir(tpath)) return(MTAR_EWRITEFAIL);
 	while(!mtar_eof(&tar)) {
 		// then create every other subdir
 		p = tpath+pathlen;
@@ -211,7 +212,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 			const size_t namelen = strlen(header->name);
 			if(p-tpath+namelen>1023) return(MTAR_EOPENFAIL);
 			strcpy(p,header->name);
-			makedir(tpath);
+			if(!makedir(tpath)) return(MTAR_EWRITEFAIL);
 			break;
 		}
 		mtar_next(&tar);
@@ -244,9 +245,15 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 				perror("Reason: ");
 				return(MTAR_EWRITEFAIL);
 			}
-			fwrite(&tar.buffer[tar.iterator.cursor],
-			       1,header->size,fp);
-			fclose(fp);
+			const size_t written =
+				fwrite(&tar.buffer[tar.iterator.cursor],
+				       1,header->size,fp);
+			if(fclose(fp)!=0 || written!=header->size) {
+				fprintf(stderr,
+					"Error writing file: %s\n",
+					tpath);
+				return(MTAR_EWRITEFAIL);
+			}
 			break;
 		}
 		mtar_next(&tar);
-- 
2.43.0


From 8f22dcc63e7c31e742018cdfbe80ba6e53ea72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 08/56] fix: validate objects before archiving and forget the
 tables of the previous one

---
 src/cjit-ar.c | 52 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index bd75a0d..0fdb98a 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -59,6 +59,43 @@ static int contains_any(const char *s, const char *list) {
   return 0;
 }
 
+/* Returns 1 if len bytes at off are inside a file of the given size */
+static int in_file(uint64_t off, uint64_t len, int fsize) {
+  return off <= (uint64_t)fsize && len <= (uint64_t)fsize - off;
+}
+
+/* Returns 1 if buf is an object whose tables are all inside of it */
+static int valid_object(const char *buf, int fsize) {
+  const ElfW(Ehdr) *ehdr = (const ElfW(Ehdr) *)buf;
+  const ElfW(Shdr) *shdr;
+  int i;
+  if (!in_file(0, sizeof(*ehdr), fsize)
+      || memcmp(ehdr->e_ident, ELFMAG, SELFMAG)
+      || ehdr->e_ident[4] != ELFCLASSW)
+      return 0;
+  if (ehdr->e_shentsize != sizeof(*shdr)
+      || ehdr->e_shstrndx >= ehdr->e_shnum
+      || !in_file(ehdr->e_shoff, (uint64_t)ehdr->e_shnum * sizeof(*shdr), fsize))
+      return 0;
+  shdr = (const ElfW(Shdr) *)(buf + ehdr->e_shoff);
+  for (i = 0; i < ehdr->e_shnum; i++) {
+      if (shdr[i].sh_type == SHT_NOBITS)
+          continue;
+      if (!in_file(shdr[i].sh_offset, shdr[i].sh_size, fsize))
+          return 0;
+      // string tables are terminated
+      if (shdr[i].sh_type == SHT_STRTAB && shdr[i].sh_size
+          && buf[shdr[i].sh_offset + shdr[i].sh_size - 1])
+          return 0;
+  }
+  if (shdr[ehdr->e_shstrndx].sh_type != SHT_STRTAB)
+      return 0;
+  for (i = 0; i < ehdr->e_shnum; i++)
+      if (shdr[i].sh_name >= shdr[ehdr->e_shstrndx].sh_size)
+          return 0;
+  return 1;
+}
+
 static int ar_usage(int ret) {
     fprintf(stderr, "usage: cjit-ar [crstvx] lib [files]\n");
     fprintf(stderr, "create library ([abdiopN] not supported).\n");
@@ -86,7 +123,7 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
     ElfW(Sym) *sym;
     int i, fsize, i_lib, i_obj;
     char *buf, *shstr, *symtab = NULL, *strtab = NULL;
-    int symtabsize = 0;//, strtabsize = 0;
+    int symtabsize = 0, strtabsize = 0;
     char *anames = NULL;
     int *afpos = NULL;
     int istrlen, strpos = 0, fpos = 0, funccnt = 0, funcmax, hofs;
@@ -217,16 +254,19 @@ finish:
         fsize = ftell(fi);
         fseek(fi, 0, SEEK_SET);
         buf = tcc_malloc(fsize + 1);
-        fread(buf, fsize, 1, fi);
+        i = fread(buf, 1, fsize, fi);
         fclose(fi);
 
         // elf header
         ehdr = (ElfW(Ehdr) *)buf;
-        if (ehdr->e_ident[4] != ELFCLASSW)
+        if (i != fsize || !valid_object(buf, fsize))
         {
             fprintf(stderr, "cjit-ar: Unsupported Elf Class: %s\n", argv[i_obj]);
+            tcc_free(buf);
             goto the_end;
         }
+        symtab = strtab = NULL;
+        symtabsize = strtabsize = 0;
 
         shdr = (ElfW(Shdr) *) (buf + ehdr->e_shoff + ehdr->e_shstrndx * ehdr->e_shentsize);
         shstr = (char *)(buf + shdr->sh_offset);
@@ -245,19 +285,19 @@ finish:
                 if (!strcmp(shstr + shdr->sh_name, ".strtab"))
                 {
                     strtab = (char *)(buf + shdr->sh_offset);
-                    //strtabsize = shdr->sh_size;
+                    strtabsize = shdr->sh_size;
                 }
             }
         }
 
-        if (symtab && symtabsize)
+        if (symtab && symtabsize && strtab)
         {
             int nsym = symtabsize / sizeof(ElfW(Sym));
             //printf("symtab: info size shndx name\n");
             for (i = 1; i < nsym; i++)
             {
                 sym = (ElfW(Sym) *) (symtab + i * sizeof(ElfW(Sym)));
-                if (sym->st_shndx &&
+                if (sym->st_shndx && sym->st_name < strtabsize &&
                     (sym->st_info == 0x10
                     || sym->st_info == 0x11
                     || sym->st_info == 0x12
-- 
2.43.0


From 9e023a644261cbe8d8d72a4f1f32218d5b9332dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 09/56] fix: keep archived objects that define no global symbol

---
 src/cjit-ar.c | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 0fdb98a..701f348 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -343,21 +343,19 @@ finish:
         hofs++, fpos = 1;
     // write header
     fwrite(ARMAG, 8, 1, fh);
-    // create an empty archive
-    if (!funccnt) {
-        ret = 0;
-        goto the_end;
+    // no index when there are no symbols
+    if (funccnt) {
+        sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
+        memcpy(&arhdr.ar_size, stmp, 10);
+        fwrite(&arhdr, sizeof(arhdr), 1, fh);
+        afpos[0] = le2belong(funccnt);
+        for (i=1; i<=funccnt; i++)
+            afpos[i] = le2belong(afpos[i] + hofs);
+        fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
+        fwrite(anames, strpos, 1, fh);
+        if (fpos)
+            fwrite("", 1, 1, fh);
     }
-    sprintf(stmp, "%-10d", (int)(strpos + (funccnt+1) * sizeof(int)) + fpos);
-    memcpy(&arhdr.ar_size, stmp, 10);
-    fwrite(&arhdr, sizeof(arhdr), 1, fh);
-    afpos[0] = le2belong(funccnt);
-    for (i=1; i<=funccnt; i++)
-        afpos[i] = le2belong(afpos[i] + hofs);
-    fwrite(afpos, (funccnt+1) * sizeof(int), 1, fh);
-    fwrite(anames, strpos, 1, fh);
-    if (fpos)
-        fwrite("", 1, 1, fh);
     // write objects
     fseek(fo, 0, SEEK_END);
     fsize = ftell(fo);
-- 
2.43.0


From 4106723845172d85d10fd4370d8cbc0f233038df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 10/56] fix: refuse truncated archives and members outside the
 current directory

---
 src/cjit-ar.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index 701f348..b8a4c39 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -170,8 +170,7 @@ int tcc_tool_ar(TCCState *s1, int argc, char **argv) {
             fprintf(stderr, "cjit-ar: can't open file %s\n", argv[i_lib]);
             goto finish;
         }
-        fread(stmp, 1, 8, fh);
-	if (memcmp(stmp,ARMAG,8))
+	if (fread(stmp, 1, 8, fh) != 8 || memcmp(stmp,ARMAG,8))
 	{
 no_ar:
             fprintf(stderr, "cjit-ar: not an ar archive %s\n", argv[i_lib]);
@@ -188,8 +187,19 @@ no_ar:
 	    *e = '\0';
 	    arhdr.ar_size[sizeof arhdr.ar_size-1] = 0;
 	    fsize = atoi(arhdr.ar_size);
+	    if (fsize < 0)
+		goto no_ar;
+	    // no bigger than the file
+	    fpos = ftell(fh);
+	    fseek(fh, 0, SEEK_END);
+	    if (fsize > ftell(fh) - fpos)
+		goto no_ar;
+	    fseek(fh, fpos, SEEK_SET);
 	    buf = tcc_malloc(fsize + 1);
-	    fread(buf, fsize, 1, fh);
+	    if (fread(buf, 1, fsize, fh) != fsize) {
+		tcc_free(buf);
+		goto no_ar;
+	    }
 	    if (strcmp(arhdr.ar_name,"/") && strcmp(arhdr.ar_name,"/SYM64/")) {
 		if (e > p && e[-1] == '/')
 		    e[-1] = '\0';
@@ -197,6 +207,13 @@ no_ar:
 	        if (table || verbose)
 		    printf("%s%s\n", extract ? "x - " : "", arhdr.ar_name);
 		if (extract) {
+		    if (strpbrk(arhdr.ar_name, "/\\")
+			|| !strcmp(arhdr.ar_name, "..")) {
+			fprintf(stderr, "cjit-ar: illegal member name %s\n",
+				arhdr.ar_name);
+			tcc_free(buf);
+			goto finish;
+		    }
 		    if ((fo = fopen(arhdr.ar_name, "wb")) == NULL)
 		    {
 			fprintf(stderr, "cjit-ar: can't create file %s\n",
@@ -204,8 +221,13 @@ no_ar:
 		        tcc_free(buf);
 			goto finish;
 		    }
-		    fwrite(buf, fsize, 1, fo);
-		    fclose(fo);
+		    i = fwrite(buf, 1, fsize, fo);
+		    if (fclose(fo) || i != fsize) {
+			fprintf(stderr, "cjit-ar: can't write file %s\n",
+				arhdr.ar_name);
+			tcc_free(buf);
+			goto finish;
+		    }
 		    /* ignore date/uid/gid/mode */
 		}
 	    }
-- 
2.43.0


From 56f44b52ff39fd8bb49718dff7ed17db8abbff18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 11/56] fix: a failed write leaves no archive and long archive
 names do not overflow

---
 src/cjit-ar.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cjit-ar.c b/src/cjit-ar.c
index b8a4c39..8d78335 100644
--- a/src/cjit-ar.c
+++ b/src/cjit-ar.c
@@ -247,7 +247,10 @@ finish:
     }
     created_file = argv[i_lib];
 
-    sprintf(tfile, "%s.tmp", argv[i_lib]);
+    if (snprintf(tfile, sizeof(tfile), "%s.tmp", argv[i_lib]) >= sizeof(tfile)) {
+        fprintf(stderr, "cjit-ar: file name too long %s\n", argv[i_lib]);
+        goto the_end;
+    }
     if ((fo = fopen(tfile, "wb+")) == NULL)
     {
         fprintf(stderr, "cjit-ar: can't create temporary file %s\n", tfile);
@@ -383,10 +386,16 @@ finish:
     fsize = ftell(fo);
     fseek(fo, 0, SEEK_SET);
     buf = tcc_malloc(fsize + 1);
-    fread(buf, fsize, 1, fo);
+    i = fread(buf, 1, fsize, fo);
     fwrite(buf, fsize, 1, fh);
     tcc_free(buf);
-    ret = 0;
+    if (i == fsize && !ferror(fo) && !ferror(fh))
+        ret = 0;
+    if (fclose(fh))
+        ret = 2;
+    fh = NULL;
+    if (ret)
+        fprintf(stderr, "cjit-ar: can't write file %s\n", argv[i_lib]);
 the_end:
     if (anames)
         tcc_free(anames);
-- 
2.43.0


From ed6705e98c3d1b2e9cebb5f9505002df32c2e4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 12/56] fix: long messages no longer overflow their buffer and
 paths are not used as formats

---
 src/cjit.c | 4 ++++
 src/main.c | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 329b976..4ace38e 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -700,6 +700,8 @@ void _out(const char *fmt, ...) {
   va_start(args, fmt);
   int len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len<0) len = 0;
+  else if(len>=MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0; //safety
   if(write(fileno(stdout), msg, len+1) <0)
@@ -714,6 +716,8 @@ void _err(const char *fmt, ...) {
   va_start(args, fmt);
   len = vsnprintf(msg, MAX_STRING, fmt, args);
   va_end(args);
+  if(len<0) len = 0;
+  else if(len>=MAX_STRING) len = MAX_STRING-1; // truncated
   msg[len] = '\n';
   msg[len+1] = 0x0;
   if(write(fileno(stderr),msg,len+1) <0)
diff --git a/src/main.c b/src/main.c
index da30183..47cdbe8 100644
--- a/src/main.c
+++ b/src/main.c
@@ -248,12 +248,12 @@ int main(int argc, char **argv) {
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
 		  if(opt.arg) {
-			  _err("Extracting runtime assets to:",opt.arg);
+			  _err("Extracting runtime assets to: %s",opt.arg);
 			  extract_assets(CJIT,opt.arg);
 		  } else {
 			  extract_assets(CJIT,NULL);
 		  }
-		  _out(CJIT->tmpdir);
+		  _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
 		  exit(0);
 #endif
-- 
2.43.0


From 09fd09b0e2f75f3ddb092471e9ce893184254a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 13/56] fix: a bare -g, -f, -W or -M no longer swallows the
 next word

---
 src/main.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main.c b/src/main.c
index 47cdbe8..1a43ca7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -434,11 +434,10 @@ char** remove_args(int* argc, char** argv,
                         new_argc--;
                         break;
                     }
-                    // OR if it's in the form "option value" (next argument)
-                    else if (i + 1 < *argc && arg[pattern_len - 1] == '\0') {
+                    // OR it's the bare option, which has no separate value
+                    else if (arg[pattern_len - 1] == '\0') {
                         keep[i] = false;    // Remove the option
-                        keep[i + 1] = false; // Remove the value
-                        new_argc -= 2;
+                        new_argc--;
                         break;
                     }
                 }
-- 
2.43.0


From d989bf248aa2c684d7d8df039b27a4f42369f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 14/56] fix: keep the words after -- and the values of options
 as they are

---
 src/main.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 1a43ca7..c318833 100644
--- a/src/main.c
+++ b/src/main.c
@@ -413,7 +413,14 @@ char** remove_args(int* argc, char** argv,
     int new_argc = *argc;
     // Second pass: process removal patterns
     for (int i = 0; i < *argc; i++) {
-        if (!keep[i]) continue;  // Already marked for removal
+        // words after the separator belong to the application
+        if (i > 0 && strcmp(argv[i], "--") == 0) break;
+        // the value of an option is not an option itself
+        if (argv[i][0] == '-' && argv[i][1] != '\0' && argv[i][2] == '\0'
+            && strchr("DLlCIepoa", argv[i][1]) != NULL) {
+            i++;
+            continue;
+        }
         for (int j = 0; j < remove_count; j++) {
             const char* arg = argv[i];
             const char* pattern = to_remove[j];
-- 
2.43.0


From 5c9ef039e76dd2b0ba809ea014b53a9ed84ed755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 15/56] fix: process all the files on the left of the --
 separator

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index c318833..49e3503 100644
--- a/src/main.c
+++ b/src/main.c
@@ -271,7 +271,7 @@ int main(int argc, char **argv) {
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == '-') { // -- separator
-		  arg_separator = opt.ind+1; break;
+		  arg_separator = opt.i; break; // first word after --
 	  }
   }
   if(!CJIT->quiet)
@@ -300,7 +300,7 @@ int main(int argc, char **argv) {
   int left_args = arg_separator? arg_separator: argc;
 
   char *stdin_code = NULL;
-  if(opt.ind >= argc) {
+  if(opt.ind >= left_args) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
 		  cjit_status(CJIT);
-- 
2.43.0


From c33665593a2d938637269560f6a4b28274c1de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 16/56] fix: do not go on when the runtime setup fails

---
 src/cjit.c | 4 ++--
 src/main.c | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 4ace38e..acb970f 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -34,7 +34,7 @@
 #include <sys/stat.h> // fstat(2)
 
 #define tcc(cjit) (TCCState*)cjit->TCC
-#define setup if(!cjit->done_setup)cjit_setup(cjit)
+#define setup if(!cjit->done_setup && !cjit_setup(cjit)) return(false)
 #define debug(fmt,par) if(cjit->verbose)_err(fmt,par)
 #define add(buf,s) if(s!=NULL)XArray_AddData((xarray_t*)cjit->buf,(char*)s,strlen(s)+1); else _err("!!! NULL var added to array: %s","buf")
 
@@ -186,7 +186,7 @@ static bool cjit_setup(CJITState *cjit) {
 	// extract all runtime assets to tmpdir
 	if(!extract_assets(cjit,NULL)) {
 		fail("error extracting assets in temp dir");
-		return(NULL);
+		return(false);
 	}
 #endif
 	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
diff --git a/src/main.c b/src/main.c
index 49e3503..f4601e2 100644
--- a/src/main.c
+++ b/src/main.c
@@ -303,8 +303,7 @@ int main(int argc, char **argv) {
   if(opt.ind >= left_args) {
 	  // no files on commandline
 	  if(CJIT->print_status) {
-		  cjit_status(CJIT);
-		  res = 0;
+		  res = cjit_status(CJIT) ?0:1;
 		  goto endgame;
 	  }
 
-- 
2.43.0


From de9c748fd027e1e20b76970175e9add359c2c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 17/56] fix: report sources, objects and libraries that fail to
 load, compile or link

---
 src/cjit.c | 25 +++++++++++++++++--------
 src/main.c | 13 +++++++------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index acb970f..9fd1beb 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -454,8 +454,9 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 			free(tmp);
 		}
 	}
-	tcc_compile_string(tcc(cjit),contents);
+	res = tcc_compile_string(tcc(cjit),contents);
 	free(contents);
+	if(res<0) return false;
 	debug("+S %s",path);
 	return true;
 }
@@ -500,12 +501,16 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	tcc_add_file(tcc(cjit), path);
+	if(tcc_add_file(tcc(cjit), path)<0) {
+		_err("%s: error: %s",__func__, path);
+		return false;
+	}
+	int res;
 	if(cjit->output_filename) {
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,
 			     cjit->output_filename);
-		tcc_output_file(tcc(cjit),
+		res = tcc_output_file(tcc(cjit),
 				cjit->output_filename);
 	} else {
 		char *ext;
@@ -520,10 +525,10 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		strcpy(ext,".o");
 		if(!cjit->quiet)
 			_err("Compiling: %s -> %s",path,tmp);
-		tcc_output_file(tcc(cjit),tmp);
+		res = tcc_output_file(tcc(cjit),tmp);
 		free(tmp);
 	}
-	return true;
+	return((res<0)?false:true);
 }
 
 // link all setup and create an executable file
@@ -540,8 +545,9 @@ int cjit_link(CJITState *cjit) {
 	int found = resolve_libs(cjit);
 	for(int i=0;i<found;i++) {
 		char *f = XArray_GetData(cjit->reallibs,i);
-		if(f) {
-			tcc_add_file(tcc(cjit), f);
+		if(f && tcc_add_file(tcc(cjit), f)<0) {
+			_err("%s: error: %s",__func__, f);
+			return -1;
 		}
 	}
 	debug(" -o %s",cjit->output_filename);
@@ -564,7 +570,10 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		char *f = XArray_GetData(cjit->reallibs,i);
 		if(f) {
 			debug(" +file: %s",f);
-			tcc_add_file(tcc(cjit), f);
+			if(tcc_add_file(tcc(cjit), f)<0) {
+				_err("%s: error: %s",__func__, f);
+				return -1;
+			}
 		}
 	}
 	int res = 1;
diff --git a/src/main.c b/src/main.c
index f4601e2..02d0ea1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -134,8 +134,7 @@ int main(int argc, char **argv) {
 	  int res = 0;
 	  CJIT->output_filename = "a.out";
 	  cjit_set_output(CJIT, EXE);
-	  cjit_add_file(CJIT, argv[1]);
-	  if(cjit_link(CJIT)<0) {
+	  if(!cjit_add_file(CJIT, argv[1]) || cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
@@ -265,8 +264,7 @@ int main(int argc, char **argv) {
 			  file_load(opt.arg, &len);
 		  if(!targz) exit(1);
 		  if(!len) exit(1);
-		  muntargz_to_path(".",targz,len);
-		  exit(0);
+		  exit(muntargz_to_path(".",targz,len) ?1:0);
 	  }
 	  else if (c == '?') _err("unknown opt: -%c\n", opt.opt? opt.opt : ':');
 	  else if (c == ':') _err("missing arg: -%c\n", opt.opt? opt.opt : ':');
@@ -367,7 +365,10 @@ int main(int argc, char **argv) {
 				  goto endgame;
 			  } else free(stdin_code);
 		  } else { // load any file path
-			  cjit_add_file(CJIT, code_path);
+			  if(!cjit_add_file(CJIT, code_path)) {
+				  res = 1;
+				  goto endgame;
+			  }
 		  }
 	  }
   }
@@ -377,7 +378,7 @@ int main(int argc, char **argv) {
   if(CJIT->print_status) cjit_status(CJIT);
   if(CJIT->output_filename) {
 	  _err("Create executable: %s", CJIT->output_filename);
-	  if(cjit_link(CJIT)<0) {
+	  if(cjit_link(CJIT)!=0) {
 		  _err("Error in linker compiling to file: %s",
 		       CJIT->output_filename);
 		  res = 1;
-- 
2.43.0


From 87b05e14e59dc52269cee4c756560a6705183377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 18/56] fix: read all code from stdin into initialised memory
 and report read errors

---
 src/file.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/file.c b/src/file.c
index 7b15a64..ca42146 100644
--- a/src/file.c
+++ b/src/file.c
@@ -85,6 +85,7 @@ char *load_stdin() {
 	char *code = NULL;
 	char *line = NULL;
 	size_t len = 0;
+	size_t code_len = 0;
 	ssize_t rd;
 	fflush(stdout);
 	fflush(stderr);
@@ -94,16 +95,25 @@ char *load_stdin() {
 			free(line);
 			break;
 		}
-		code = realloc(code, (code?strlen(code):0) + len + 1);
-		if (!code) {
+		char *grown = realloc(code, code_len + rd + 1);
+		if (!grown) {
 			fail("malloc error");
 			free(line);
+			free(code);
 			return NULL;
 		}
-		strcat(code, line);
+		code = grown;
+		memcpy(code + code_len, line, rd);
+		code_len += rd;
+		code[code_len] = 0x0;
 		free(line);
 		line = NULL;
 	}
+	if(ferror(stdin) || (code && strlen(code) != code_len)) {
+		// read failure, or a NUL would hide the code that follows
+		free(code);
+		return NULL;
+	}
 	return(code);
 #endif
 }
-- 
2.43.0


From 00c4d4650d0241f8ca69cae9351d63b191e10383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:00 +0000
Subject: [PATCH 19/56] fix: accept sources of any length and refuse those that
 cannot be read whole

---
 src/cjit.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 9fd1beb..809f969 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -375,10 +375,12 @@ static int detect_bom(const char *filename,size_t *filesize) {
 	*filesize = st.st_size;
 	res = read(fd,bom,3);
 	close(fd);
-	if (res!=3) {
+	if (res<0) {
 		fail(filename);
 		return -1;
 	}
+	// shorter files have no room for a BOM
+	memset(bom+res,0x0,3-res);
 	// _err("%s bom: %x %x %x",filename,bom[0],bom[1],bom[2]);
 	if (bom[0] == 0xFF && bom[1] == 0xFE) {
 		return 1; // UTF-16 LE
@@ -436,13 +438,19 @@ bool cjit_add_source(CJITState *cjit, const char *path) {
 	}
 	strcpy(contents,spath);
 	free(spath);
-	if(0== fread(contents+spath_len, 1, length, file)) {
-		fail(file);
+	if(length != fread(contents+spath_len, 1, length, file)) {
+		fail(path);
+		free(contents);
 		fclose(file);
 		return false;
 	}
 	contents[length+spath_len] = 0x0;
 	fclose(file);
+	if(strlen(contents) != length+spath_len) {
+		_err("%s: source contains a NUL byte",path);
+		free(contents);
+		return false;
+	}
 	{ // if inside a dir then add dir to includes too
 		size_t dirname;
 		cwk_path_get_dirname(path,&dirname);
-- 
2.43.0


From 7d0d11066435710c35ef096c4136b4d7f9171278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 20/56] fix: loading a file without a known length overflowed
 its buffer

---
 src/file.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/file.c b/src/file.c
index ca42146..f0c96f1 100644
--- a/src/file.c
+++ b/src/file.c
@@ -46,7 +46,7 @@ static long file_size(const char *filename) {
 }
 
 char* file_load(const char *filename, unsigned int *len) {
-    size_t length = file_size(filename);
+    long length = file_size(filename);
     if (length < 1) {
         return NULL;
     }
@@ -66,8 +66,10 @@ char* file_load(const char *filename, unsigned int *len) {
 
     // _err("Loading source file %s",filename);
 
-    if(fread(contents, 1, length, file)<length) {
-		fail(file);
+    if(fread(contents, 1, length, file)<(size_t)length) {
+		fail(filename);
+		free(contents);
+		fclose(file);
 		return NULL;
 	}
 
-- 
2.43.0


From 440f30dec79278c237237ca7b494550aa428e42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:19 +0000
Subject: [PATCH 21/56] fix: wait for the end of the program and report
 failures to start it

---
 src/cjit.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 809f969..789918c 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -618,28 +618,39 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 	return(res);
 #else // we assume anything else but WINDOWS has fork()
 	pid_t pid;
+	FILE *fd = NULL;
+	if(cjit->write_pid) {
+		fd = fopen(cjit->write_pid, "w");
+		if(!fd) {
+			fail(cjit->write_pid);
+			_err("Cannot create pid file");
+			return -1;
+		}
+	}
 	cjit->done_exec = true;
 	pid = fork();
+	if (pid < 0) {
+		fail("fork");
+		if(fd) fclose(fd);
+		return -1;
+	}
 	if (pid == 0) {
+		if(fd) fclose(fd);
 		res = _ep(argc, argv);
 		exit(res);
 	} else {
-		if(cjit->write_pid) {
-			// pid_t pid = getpid();
-			FILE *fd = fopen(cjit->write_pid, "w");
-			if(!fd) {
-				fail(cjit->write_pid);
-				_err("Cannot create pid file");
-				return -1;
-			}
+		if(fd) {
 			fprintf(fd,"%d\n",pid);
 			fclose(fd);
 		}
 		int status;
 		int ret;
-		ret = waitpid(pid, &status, WUNTRACED | WCONTINUED);
+		do { // a stopped program is still running
+			ret = waitpid(pid, &status, 0);
+		} while (ret < 0 && errno == EINTR);
 		if (ret != pid){
-			_err("Wait error in source: %s",cjit->entry);
+			_err("Wait error in source: %s",cjit->entry?cjit->entry:"main");
+			return -1;
 		}
 		if (WIFEXITED(status)) {
 			res = WEXITSTATUS(status);
@@ -647,12 +658,6 @@ int cjit_exec(CJITState *cjit, int argc, char **argv) {
 		} else if (WIFSIGNALED(status)) {
 			res = WTERMSIG(status);
 			_err("Process terminated with signal %d", WTERMSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			//_err("Process has returned %d", WSTOPSIG(status));
-		} else if (WIFSTOPPED(status)) {
-			res = WSTOPSIG(status);
-			_err("Process stopped with signal", WSTOPSIG(status));
 		} else {
 			_err("wait: unknown status: %d", status);
 		}
-- 
2.43.0


From 6a338a0e774a29a5f2c69ad716f7fea9d5d5639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 22/56] fix: extract the runtime assets again after an
 interrupted extraction

---
 src/cjit.c | 38 ++++++++++++++++++++++++++++++++++----
 src/cjit.h |  1 +
 src/main.c |  9 +++++----
 3 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/cjit.c b/src/cjit.c
index 789918c..a6c6d1a 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -50,6 +50,24 @@ extern bool    get_winsdkpath(char *dst, size_t destlen);
 // from file.c
 extern char *new_abspath(const char *path);
 
+extern bool write_to_file(const char *path, const char *filename, const char *buf, unsigned int len);
+
+// the marker is written when all runtime assets are extracted: a dir
+// without it was left by an extraction that was interrupted or failed
+#define ASSETS_MARKER ".complete"
+static bool assets_complete(const char *dir) {
+	char path[MAX_PATH];
+	struct stat info;
+	if(cwk_path_join(dir,ASSETS_MARKER,path,MAX_PATH)>=MAX_PATH)
+		return(false);
+	return(stat(path, &info) == 0);
+}
+bool cjit_assets_done(CJITState *cjit) {
+	if(!cjit->fresh) return(true);
+	cjit->fresh = false;
+	return(write_to_file(cjit->tmpdir,ASSETS_MARKER,"",0));
+}
+
 // second argument is optional and if left NULL then default path is
 // used: ${TEMPDIR}/CJIT-vN.N.N
 bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
@@ -69,13 +87,18 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 			cjit->fresh = true;
 		} else if (info.st_mode & S_IFDIR) {
 			// The path exists and is a directory
-			cjit->fresh = false;
+			cjit->fresh = !assets_complete(tempDir);
 		} else {
 			_err("Cannot overwrite runtime include dir: %s",tempDir);
 			// The path exists but is not a directory
+			free(tempDir);
+			return(false);
+		}
+		if(cjit->fresh && mkdir(tempDir,0755)<0 && errno!=EEXIST) {
+			fail(tempDir);
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	} else {
 		tempDir = malloc(MAX_PATH+1);
@@ -116,13 +139,18 @@ bool cjit_mkdtemp(CJITState *cjit, const char *optional_path) {
 			cjit->fresh = true;
 		} else if (info.st_mode & S_IFDIR) {
 			// The path exists and is a directory
-			cjit->fresh = false;
+			cjit->fresh = !assets_complete(tempDir);
 		} else {
 			_err("Temp dir is a file, cannot overwrite: %s",tempDir);
 			// The path exists but is not a directory
+			free(tempDir);
+			return(false);
+		}
+		if(cjit->fresh && mkdir(tempDir,0755)<0 && errno!=EEXIST) {
+			fail(tempDir);
+			free(tempDir);
 			return(false);
 		}
-		if(cjit->fresh) mkdir(tempDir,0755);
 #endif
 	}
 	cjit->tmpdir = malloc(strlen(tempDir)+1);
@@ -188,6 +216,8 @@ static bool cjit_setup(CJITState *cjit) {
 		fail("error extracting assets in temp dir");
 		return(false);
 	}
+	if(!cjit_assets_done(cjit))
+		_err("Runtime assets will be extracted again on next run");
 #endif
 	tcc_set_output_type(tcc(cjit), cjit->tcc_output);
 #if defined(LIBC_MUSL)
diff --git a/src/cjit.h b/src/cjit.h
index 9533b4f..6c6f071 100644
--- a/src/cjit.h
+++ b/src/cjit.h
@@ -96,6 +96,7 @@ void cjit_set_tcc_options(CJITState *cjit, const char *opts);
 // from embedded.c - generated at build time
 extern bool extract_assets(CJITState *CJIT, const char *optional_path);
 extern bool cjit_mkdtemp(CJITState *cjit, const char *optional_path);
+extern bool cjit_assets_done(CJITState *cjit);
 /////////////
 // from file.c
 extern char* file_load(const char *filename, unsigned int *len);
diff --git a/src/main.c b/src/main.c
index 02d0ea1..42eac2b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -246,11 +246,12 @@ int main(int argc, char **argv) {
 #endif
 #if !defined(SHAREDTCC)
 	  } else if (c == 401) { // --xass
-		  if(opt.arg) {
+		  if(opt.arg)
 			  _err("Extracting runtime assets to: %s",opt.arg);
-			  extract_assets(CJIT,opt.arg);
-		  } else {
-			  extract_assets(CJIT,NULL);
+		  if(!extract_assets(CJIT,opt.arg) || !cjit_assets_done(CJIT)) {
+			  _err("Error extracting runtime assets");
+			  cjit_free(CJIT);
+			  exit(1);
 		  }
 		  _out("%s",CJIT->tmpdir);
 		  cjit_free(CJIT);
-- 
2.43.0


From 7fe4d5ee5a101a69af26a41804fb1b3f16495e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:04 +0000
Subject: [PATCH 23/56] fix: -C crashed using the wrong state

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 42eac2b..1b95984 100644
--- a/src/main.c
+++ b/src/main.c
@@ -207,7 +207,7 @@ int main(int argc, char **argv) {
 		  cjit_add_library(CJIT, opt.arg);
 	  } else if (c == 'C') { // cflags compiler options
 		  if(CJIT->verbose)_err("arg cflags: %s",opt.arg);
-		  cjit_set_tcc_options(CJIT->TCC, opt.arg);
+		  cjit_set_tcc_options(CJIT, opt.arg);
 	  } else if (c == 'I') { // include paths in cflags
 		  if(CJIT->verbose)_err("arg inc: %s",opt.arg);
 		  cjit_add_include_path(CJIT, opt.arg);
-- 
2.43.0


From 0b15c6aaa662bf80cfc9d2384462eec0718f100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 24/56] fix: the pieces of an overlong ld.so.conf line are not
 paths

---
 src/elflinker.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 155dd51..60301de 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -62,10 +62,14 @@ bool read_ldsoconf(xarray_t *dest, char *path) {
 	// TODO: optimize by allocating the buffer inside a xarray data
 	// struct to avoid double memcpy
 	char line[MAX_PATH];
+	bool partial = false; // rest of a line longer than the buffer
 	while (fgets(line, MAX_PATH, file) != NULL) {
+		size_t len = strlen(line);
+		bool skip = partial;
+		partial = (len == MAX_PATH-1 && line[len-1]!='\n');
+		if (skip || partial) continue;
 		// Skip lines that aren't paths
 		if (line[0] != '/') continue;
-		size_t len = strlen(line);
 		if(line[len-1]=='\n') line[len-1]=0x0;
 		// add the line to the result array
 		XArray_AddData(dest,line,len+1);
-- 
2.43.0


From fd08c6d98a0c29bdf495a08b91567cefa50e1be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 25/56] fix: link every file of a linker script and the target
 of any symbolic link

---
 src/elflinker.c | 78 ++++++++++++++++++++++++-------------------------
 1 file changed, 39 insertions(+), 39 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index 60301de..e994a4c 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -136,6 +136,24 @@ int resolve_libs(CJITState *cjit) {
 	return(XArray_Used(cjit->reallibs));
 }
 
+// path to the target of a symbolic link, must be freed
+static char *new_link_target(const char *path) {
+	char target[PATH_MAX];
+	size_t dlen = 0;
+	ssize_t len = readlink(path, target, PATH_MAX-1);
+	if (len == -1) {
+		fail(path);
+		return NULL;
+	}
+	target[len] = 0x0;
+	// relative targets start from the directory of the link
+	if(target[0] != '/') cwk_path_get_dirname(path,&dlen);
+	char *res = malloc(dlen+len+1); // ALLOC
+	memcpy(res,path,dlen);
+	strcpy(&res[dlen],target);
+	return(res);
+}
+
 static char *new_solve_symlink(const char *path) {
     struct stat statbuf;
 	char *reallib = NULL;
@@ -144,21 +162,7 @@ static char *new_solve_symlink(const char *path) {
         return NULL;
     }
     if (S_ISLNK(statbuf.st_mode)) {
-		int tlen = strlen(path);
-		char *tpath = malloc(tlen); // ALLOC tpath
-        ssize_t len = readlink(path, tpath, tlen-1);
-        if (len == -1) {
-			free(tpath);
-            fail(path);
-			return NULL;
-        }
-		tpath[len] = 0x0;
-		size_t rlen = tlen + len;
-		reallib = malloc(rlen+1); // ALLOC
-		cwk_path_get_dirname(path,&rlen);
-		memcpy(reallib,path,rlen);
-		strcpy(&reallib[rlen],tpath);
-		free(tpath);               // FREE tpath
+		return new_link_target(path);
     } else if (S_ISREG(statbuf.st_mode)) {
 		reallib = malloc(strlen(path)+1); // ALLOC
 		strcpy(reallib,path);
@@ -206,14 +210,14 @@ static int find_library(CJITState *cjit, const char *path) {
 	}
 	fclose(fd);
 	if(is_ldscript) {
-		LDState s1;
+		LDState s1 = { 0 };
 		int rr;
 		s1.libs = cjit->reallibs;
 		s1.libpaths = cjit->libpaths;
 		rr = resolve_ldscript(&s1, reallib);
-		if(rr<1)_err("Library not found: %s",reallib);
+		if(rr!=0)_err("Library not found: %s",reallib);
 	} else {
-		XArray_AddData(cjit->reallibs,reallib,strlen(reallib));
+		XArray_AddData(cjit->reallibs,reallib,strlen(reallib)+1);
 	}
 	free(reallib);
 	return 0;
@@ -351,6 +355,7 @@ static int ld_next(LDState *s1, char *name, int name_size)
 
 static int ld_add_file(LDState *s1, const char filename[]) {
 	char tryfile[PATH_MAX];
+	char *found = NULL;
 	int libpaths_num;
 	char *lpath;
     struct stat statbuf;
@@ -360,14 +365,10 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 			return 0;
 		}
 		if (S_ISREG(statbuf.st_mode)) {
-			strcpy(tryfile,filename);
+			found = strdup(filename);
 		} else if (S_ISLNK(statbuf.st_mode)) {
-			ssize_t len = readlink(filename, tryfile, PATH_MAX-1);
-			if (len == -1) {
-				fail(filename);
-				return 0;
-			}
-			tryfile[len] = 0x0;
+			found = new_link_target(filename);
+			if (!found) return 0;
 		} else {
 			_err("Library file not recognized: %s",filename);
 			return 0;
@@ -380,27 +381,26 @@ static int ld_add_file(LDState *s1, const char filename[]) {
 			lpath = XArray_GetData(s1->libpaths,ii);
 			cwk_path_join(lpath,filename,tryfile,PATH_MAX);
 			if (lstat(tryfile, &statbuf) == -1) continue;
-			if (S_ISREG(statbuf.st_mode)) break;
+			if (S_ISREG(statbuf.st_mode)) {
+				found = strdup(tryfile);
+				break;
+			}
 			if (S_ISLNK(statbuf.st_mode)) {
-				int tlen = strlen(tryfile)+64;
-				char *tpath = malloc(tlen); // ALLOC tpath
-				ssize_t len = readlink(tryfile, tpath, tlen-1);
-				if (len == -1) {
-					free(tpath);
-					fail(tryfile);
-					continue;
-				}
-				tpath[len] = 0x0;
-				cwk_path_join(lpath,tpath,tryfile,PATH_MAX);
-				free(tpath);
+				found = new_link_target(tryfile);
+				if (!found) continue;
 				break;
 			}
 			// check ELF BOM in file
 			_err("Library file not recognized: %s",tryfile);
 		}
 	}
-	XArray_AddData(s1->libs, tryfile, strlen(tryfile));
-	return 1;
+	if(!found) {
+		_err("Library not found: %s",filename);
+		return 0;
+	}
+	XArray_AddData(s1->libs, found, strlen(found)+1);
+	free(found);
+	return 0;
 }
 
 static int tcc_error_noabort(char *msg) {
-- 
2.43.0


From a48830e00d0dcca6af6cff7ae1ba0d7de448c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 26/56] fix: report malformed linker scripts whatever bytes
 they hold

---
 src/elflinker.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/elflinker.c b/src/elflinker.c
index e994a4c..334b869 100644
--- a/src/elflinker.c
+++ b/src/elflinker.c
@@ -232,7 +232,7 @@ static int ld_inp(LDState *s1)
         return c;
     }
     if (1 == read(s1->fd, &b, 1))
-        return b;
+        return (unsigned char)b;
     return CH_EOF;
 }
 
@@ -332,7 +332,7 @@ static int ld_next(LDState *s1, char *name, int name_size)
             if (!((ch >= 'a' && ch <= 'z') ||
                   (ch >= 'A' && ch <= 'Z') ||
                   (ch >= '0' && ch <= '9') ||
-                  strchr("/.-_+=$:\\,~", ch)))
+                  (ch && strchr("/.-_+=$:\\,~", ch))))
                 break;
             if ((q - name) < name_size - 1) {
                 *q++ = ch;
@@ -445,7 +445,11 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
             goto lib_parse_error;
         }
         if (!strcmp(filename, "AS_NEEDED")) {
-            ret = ld_add_file_list(s1, cmd, 1);
+            if (as_needed >= 16) {
+                ret = tcc_error_noabort("AS_NEEDED nested too deep");
+                goto lib_parse_error;
+            }
+            ret = ld_add_file_list(s1, cmd, as_needed + 1);
             if (ret)
                 goto lib_parse_error;
         } else {
@@ -482,7 +486,7 @@ static int ld_add_file_list(LDState *s1, const char *cmd, int as_needed) {
 static int resolve_ldscript(LDState *s1, char *path) {
     char cmd[64];
     char filename[1024];
-    int t, ret;
+    int t, ret = -1;
 	int fd = open(path, O_RDONLY | O_BINARY);
 	if(fd<0) {
 		fail(path);
@@ -503,10 +507,8 @@ static int resolve_ldscript(LDState *s1, char *path) {
         if (!strcmp(cmd, "INPUT") ||
             !strcmp(cmd, "GROUP")) {
             ret = ld_add_file_list(s1, cmd, 0);
-            if (ret) {
-				close(fd);
+            if (ret)
 				break;
-			}
         } else if (!strcmp(cmd, "OUTPUT_FORMAT") ||
                    !strcmp(cmd, "TARGET")) {
             /* ignore some commands */
@@ -514,7 +516,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
             if (t != '(') {
 					_err("%s: ( expected while parsing %s",
 						 __func__,path);
-					close(fd);
+					ret = -1;
 					break;
 			}
             for(;;) {
@@ -523,7 +525,7 @@ static int resolve_ldscript(LDState *s1, char *path) {
 					_err("%s: unexpected end of file in %s",
 						 __func__,path);
 					close(fd);
-					return 0;
+					return -1;
                 } else if (t == ')') {
                     break;
                 }
-- 
2.43.0


From bbb5c1151d80d7947cf5f1395596c1de5926dcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:51 +0000
Subject: [PATCH 27/56] fix: -c accepts and refuses the same sources as running
 them

---
 src/cjit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cjit.c b/src/cjit.c
index a6c6d1a..8bdfa75 100644
--- a/src/cjit.c
+++ b/src/cjit.c
@@ -539,7 +539,7 @@ bool cjit_compile_file(CJITState *cjit, const char *path) {
 		return false;
 	}
 	setup;
-	if(tcc_add_file(tcc(cjit), path)<0) {
+	if(!cjit_add_source(cjit, path)) {
 		_err("%s: error: %s",__func__, path);
 		return false;
 	}
-- 
2.43.0


From d7be84b0bb3d0c21c850e77af5d8b69f4be0f1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:33 +0000
Subject: [PATCH 28/56] fix: an ambiguous long option hung the tool

---
 src/ketopt.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ketopt.h b/src/ketopt.h
index 2053d09..5ace28a 100644
--- a/src/ketopt.h
+++ b/src/ketopt.h
@@ -83,7 +83,6 @@ static int ketopt(ketopt_t *s, int argc, char *argv[], int permute, const char *
 					if (longopts[k].name[j - 2] == 0) ++n_exact, o_exact = &longopts[k];
 					else ++n_partial, o_partial = &longopts[k];
 				}
-			if (n_exact > 1 || (n_exact == 0 && n_partial > 1)) return '?';
 			o = n_exact == 1? o_exact : n_partial == 1? o_partial : 0;
 			if (o) {
 				s->opt = opt = o->val, s->longidx = o - longopts;
-- 
2.43.0


From dd9df74451f045baa208c2b3cf1e31c2201a1120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 29/56] fix: -e was taken for --verb and never changed the
 entry function

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 1b95984..c859144 100644
--- a/src/main.c
+++ b/src/main.c
@@ -152,7 +152,7 @@ int main(int argc, char **argv) {
   // they are overridden by explicit command-line options
   static ko_longopt_t longopts[] = {
 	  { "help", ko_no_argument, 100 },
-	  { "verb", ko_no_argument, 101 },
+	  { "verb", ko_no_argument, 301 },
 #if defined(SELFHOST)
 	  { "src",  ko_no_argument, 311 },
 #endif
@@ -174,7 +174,7 @@ int main(int argc, char **argv) {
 		  _err(cli_help,VERSION);
 		  cjit_free(CJIT);
 		  exit(0); // print and exit
-	  } else if (c==101 ) { // verb
+	  } else if (c==301 ) { // verb
 		  CJIT->quiet = false;
 		  CJIT->verbose = true;
 	  } else if (c == 'D') { // define
-- 
2.43.0


From 11c229452f96ddcde3a8d959edfa5e424d248662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:21 +0000
Subject: [PATCH 30/56] fix: -c without a source tried to run the object

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index c859144..7ba59d4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -310,6 +310,10 @@ int main(int argc, char **argv) {
 	  _err("No files specified on commandline");
 	  goto endgame;
 #endif
+	  if(CJIT->tcc_output==OBJ && !CJIT->output_filename) {
+		  _err("No file specified to compile to object");
+		  goto endgame;
+	  }
 	  ////////////////////////////
 	  // Processs code from STDIN
 	  if(!CJIT->quiet)_err("No files specified on commandline, reading code from stdin");
-- 
2.43.0


From 492c7fe8bc17a99e45f952888473581ba646fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 31/56] fix: decompress archives of any compression ratio in
 muntargz_to_path

A valid .tar.gz that expands more than ten times (or a small one) was
refused because the destination buffer was sized by a guess: use the size
recorded in the gzip trailer, bounded by what deflate can expand to.
---
 src/muntar.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/muntar.c b/src/muntar.c
index e079942..7a8ff66 100644
--- a/src/muntar.c
+++ b/src/muntar.c
@@ -264,7 +264,7 @@ int muntar_to_path(const char *path, const uint8_t *buf,
 #if !defined(NOGUNZIP)
 // gunzip and untar all in one
 #include <tinf.h>
-#define DECOMPRESSED_SIZE_RATIO 10 // raise this on errors
+#define DEFLATE_MAX_RATIO 1032 // a deflate stream can't expand more
 int muntargz_to_path(const char *path, const uint8_t *buf,
 		    const unsigned int len) {
 	if(!buf) {
@@ -278,8 +278,18 @@ int muntargz_to_path(const char *path, const uint8_t *buf,
 		return(-1);
 	}
 	int res;
-	unsigned int destlen = len*DECOMPRESSED_SIZE_RATIO;
-	uint8_t *dest = malloc(destlen);
+	// the gzip trailer ends with the size of the decompressed data
+	unsigned int destlen = 0;
+	if(len>=18) destlen = (unsigned int)buf[len-4]
+		| (unsigned int)buf[len-3]<<8
+		| (unsigned int)buf[len-2]<<16
+		| (unsigned int)buf[len-1]<<24;
+	if(destlen/DEFLATE_MAX_RATIO>len) destlen = 0;
+	uint8_t *dest = malloc((size_t)destlen+1);
+	if(!dest) {
+		fprintf(stderr,"Error in gunzip decompression (out of memory)\n");
+		return(-1);
+	}
 	res = tinf_gzip_uncompress(dest,&destlen,buf,len);
 	// fprintf(stdout,"Compressed source length: %u\n",len);
 	// fprintf(stdout,"Uncompressed destination length: %u\n",destlen);
-- 
2.43.0


From 20f6ca637e8367a2e24d22c8a82be3961e038403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 32/56] fix: case labels are converted to the promoted type of
 the switch value

---
 lib/tinycc/tccgen.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 57bc493..7a11d09 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -6766,6 +6766,15 @@ static void gcase(struct case_t **base, int len, int *bsym)
     *bsym = gjmp(*bsym);
 }
 
+/* convert a case label to the promoted type of the switch value */
+static int64_t case_value(int64_t v)
+{
+    int t = cur_switch->sv.type.t;
+    if ((t & VT_BTYPE) == VT_LLONG)
+        return v;
+    return t & VT_UNSIGNED ? (int64_t)(uint32_t)v : (int64_t)(int32_t)v;
+}
+
 static void end_switch(void)
 {
     struct switch_t *sw = cur_switch;
@@ -7143,6 +7152,14 @@ again:
         skip('(');
         gexpr();
         skip(')');
+        if (is_integer_btype(vtop->type.t & VT_BTYPE)) {
+            /* integer promotion */
+            CType type;
+            vpushi(0);
+            combine_types(&type, vtop - 1, vtop, '+');
+            vpop();
+            gen_cast(&type);
+        }
         sw->sv = *vtop--; /* save switch value */
         a = 0;
         b = gjmp(0); /* jump to first case */
@@ -7182,10 +7199,10 @@ again:
             expect("switch");
         cr = tcc_malloc(sizeof(struct case_t));
         dynarray_add(&cur_switch->p, &cur_switch->n, cr);
-        cr->v1 = cr->v2 = expr_const64();
+        cr->v1 = cr->v2 = case_value(expr_const64());
         if (gnu_ext && tok == TOK_DOTS) {
             next();
-            cr->v2 = expr_const64();
+            cr->v2 = case_value(expr_const64());
             if ((!(cur_switch->sv.type.t & VT_UNSIGNED) && cr->v2 < cr->v1)
                 || (cur_switch->sv.type.t & VT_UNSIGNED && (uint64_t)cr->v2 < (uint64_t)cr->v1))
                 tcc_warning("empty case range");
-- 
2.43.0


From bf7ff27367811a25575c86261e85bb2afd021475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 33/56] fix: array members of small structs were passed as
 integers whatever their element type

---
 lib/tinycc/x86_64-gen.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 4f46efc..4bd8bf7 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -1105,10 +1105,14 @@ static X86_64_Mode classify_x86_64_inner(CType *ty)
     case VT_SHORT:
     case VT_LLONG:
     case VT_BOOL:
-    case VT_PTR:
     case VT_FUNC:
         return x86_64_mode_integer;
-    
+
+    case VT_PTR:
+        if (ty->t & VT_ARRAY) /* an array member has its elements' class */
+            return classify_x86_64_inner(&ty->ref->type);
+        return x86_64_mode_integer;
+
     case VT_FLOAT:
     case VT_DOUBLE: return x86_64_mode_sse;
     
-- 
2.43.0


From 42f3e683fe1ad5aee55cd271103b0a7d2a932d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 34/56] fix: constant floating expressions were rounded twice

---
 lib/tinycc/tccgen.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 7a11d09..a57d92b 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -2517,9 +2517,12 @@ static void gen_opif(int op)
         if (!(ieee_finite(f1) || !ieee_finite(f2)) && !CONST_WANTED)
             goto general_case;
         switch(op) {
-        case '+': f1 += f2; break;
-        case '-': f1 -= f2; break;
-        case '*': f1 *= f2; break;
+/* round once, to the precision of the operands */
+#define FOLD(op) (bt == VT_FLOAT ? (float)f1 op (float)f2 : \
+                  bt == VT_DOUBLE ? (double)f1 op (double)f2 : f1 op f2)
+        case '+': f1 = FOLD(+); break;
+        case '-': f1 = FOLD(-); break;
+        case '*': f1 = FOLD(*); break;
         case '/': 
             if (f2 == 0.0) {
                 union { float f; unsigned u; } x1, x2, y;
@@ -2538,8 +2541,9 @@ static void gen_opif(int op)
                 f1 = y.f;
                 break;
             }
-            f1 /= f2;
+            f1 = FOLD(/);
             break;
+#undef FOLD
         case TOK_NEG:
             f1 = -f1;
             goto unary_result;
-- 
2.43.0


From cec7a1b054f268bc6f116f97bc4a2f0803874363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:35 +0000
Subject: [PATCH 35/56] fix: converting to long double with another long double
 in the FPU register lost the latter

---
 lib/tinycc/x86_64-gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/x86_64-gen.c b/lib/tinycc/x86_64-gen.c
index 4bd8bf7..0c944b6 100644
--- a/lib/tinycc/x86_64-gen.c
+++ b/lib/tinycc/x86_64-gen.c
@@ -2125,7 +2125,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f); /* cvtps2pd */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movss %xmm0,-0x10(%rsp) */
             o(0x110ff3);
             o(0x44 + REG_VALUE(vtop->r)*8);
@@ -2141,7 +2141,7 @@ void gen_cvt_ftof(int t)
             o(0x5a0f66); /* cvtpd2ps */
             o(0xc0 + REG_VALUE(vtop->r)*9);
         } else if (tbt == VT_LDOUBLE) {
-            save_reg(RC_ST0);
+            save_reg(TREG_ST0);
             /* movsd %xmm0,-0x10(%rsp) */
             o(0x110ff2);
             o(0x44 + REG_VALUE(vtop->r)*8);
-- 
2.43.0


From f1993b020c1a123dd095c75ed3dd88ea1847a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 36/56] fix: #if expressions were evaluated with int operands
 instead of 64-bit ones

---
 lib/tinycc/tcc.h    | 1 +
 lib/tinycc/tccgen.c | 7 +++----
 lib/tinycc/tccpp.c  | 8 ++++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tcc.h b/lib/tinycc/tcc.h
index 7bae6af..d9c8f58 100644
--- a/lib/tinycc/tcc.h
+++ b/lib/tinycc/tcc.h
@@ -1512,6 +1512,7 @@ ST_FUNC void indir(void);
 ST_FUNC void unary(void);
 ST_FUNC void gexpr(void);
 ST_FUNC int expr_const(void);
+ST_FUNC int64_t expr_const64(void);
 #if defined CONFIG_TCC_BCHECK || defined TCC_TARGET_C67
 ST_FUNC Sym *get_sym_ref(CType *type, Section *sec, unsigned long offset, unsigned long size);
 #endif
diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index a57d92b..f47614f 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -146,7 +146,6 @@ static int decl(int l);
 static void expr_eq(void);
 static void vpush_type_size(CType *type, int *a);
 static int is_compatible_unqualified_types(CType *type1, CType *type2);
-static inline int64_t expr_const64(void);
 static void vpush64(int ty, unsigned long long v);
 static void vpush(CType *type);
 static int gvtst(int inv, int t);
@@ -2949,8 +2948,8 @@ static int combine_types(CType *dest, SValue *op1, SValue *op2, int op)
         } else {
             type.t = VT_FLOAT;
         }
-    } else if (bt1 == VT_LLONG || bt2 == VT_LLONG) {
-        /* cast to biggest op */
+    } else if (bt1 == VT_LLONG || bt2 == VT_LLONG || pp_expr) {
+        /* cast to biggest op; #if expressions have 64 bits */
         type.t = VT_LLONG | VT_LONG;
         if (bt1 == VT_LLONG)
           type.t &= t1;
@@ -6589,7 +6588,7 @@ static void expr_const1(void)
 }
 
 /* parse an integer constant and return its value. */
-static inline int64_t expr_const64(void)
+ST_FUNC int64_t expr_const64(void)
 {
     int64_t c;
     expr_const1();
diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 6f2bc17..89697c0 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1519,13 +1519,13 @@ static int expr_preprocess(TCCState *s1)
     /* now evaluate C constant expression */
     begin_macro(str, 1);
     next();
-    c = expr_const();
+    c = expr_const64() != 0;
     if (tok != TOK_EOF)
         tcc_error("...");
     pp_expr = 0;
     end_macro();
     tok = t; /* restore LF or EOF */
-    return c != 0;
+    return c;
 }
 
 ST_FUNC void pp_error(CString *cs)
@@ -2496,6 +2496,10 @@ static void parse_number(const char *p)
             }
         }
 
+        /* in preprocessor expressions all constants have 64 bits */
+        if (pp_expr)
+            lcount = 2;
+
         /* Determine if it needs 64 bits and/or unsigned in order to fit */
         if (ucount == 0 && b == 10) {
             if (lcount <= (LONG_SIZE == 4)) {
-- 
2.43.0


From 209ed2b5b1606b92a026fc15f30a1b288e808828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:37 +0000
Subject: [PATCH 37/56] fix: an empty extra argument of a function-like macro
 was accepted

---
 lib/tinycc/tccpp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 89697c0..1ad9a14 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3289,7 +3289,7 @@ static int macro_subst_tok(
                 } while (t == ' ' || --i);
 
                 if (!sa) {
-                    if (t == ')') /* handle '()' case */
+                    if (t == ')' && !s->next) /* handle '()' case */
                         break;
                     tcc_error("macro '%s' used with too many args",
                         get_tok_str(v, 0));
-- 
2.43.0


From 09bf45932ff8b358a526b0195740ee908ecb593c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 38/56] fix: va_arg of a two-register SSE struct that did not
 fit used up the last register

---
 lib/tinycc/lib/va_list.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/tinycc/lib/va_list.c b/lib/tinycc/lib/va_list.c
index 1fb5512..897e4f4 100644
--- a/lib/tinycc/lib/va_list.c
+++ b/lib/tinycc/lib/va_list.c
@@ -40,16 +40,15 @@ void *__va_arg(__builtin_va_list ap,
         goto use_overflow_area;
 
     case __va_float_reg:
-        if (ap->fp_offset < 128 + 48) {
-            ap->fp_offset += 16;
+        /* all or nothing: an argument that does not fit leaves the rest of the
+           registers to the arguments after it */
+        if (ap->fp_offset + 2 * size <= 128 + 48) {
+            ap->fp_offset += 2 * size;
             if (size == 8)
                 return ap->reg_save_area + ap->fp_offset - 16;
-            if (ap->fp_offset < 128 + 48) {
-                memcpy(ap->reg_save_area + ap->fp_offset - 8,
-                       ap->reg_save_area + ap->fp_offset, 8);
-                ap->fp_offset += 16;
-                return ap->reg_save_area + ap->fp_offset - 32;
-            }
+            memcpy(ap->reg_save_area + ap->fp_offset - 24,
+                   ap->reg_save_area + ap->fp_offset - 16, 8);
+            return ap->reg_save_area + ap->fp_offset - 32;
         }
         goto use_overflow_area;
 
-- 
2.43.0


From d14564dae2b1df2ec9226de41171c960529f48be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 39/56] fix: malformed integer constants (0x, 1lL) were
 accepted

---
 lib/tinycc/tccpp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 1ad9a14..304bfad 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2343,6 +2343,8 @@ static void parse_number(const char *p)
                     ch = *p++;
                 }
             }
+            if (q == token_buf + 1 && frac_bits == 0)
+                tcc_error("invalid number");
             if (ch != 'p' && ch != 'P')
                 expect("exponent");
             ch = *p++;
@@ -2446,6 +2448,8 @@ static void parse_number(const char *p)
         const char *p1;
 
         /* integer number */
+        if (q == token_buf)
+            tcc_error("invalid number");
         *q = '\0';
         q = token_buf;
         if (b == 10 && *q == '0') {
@@ -2482,8 +2486,8 @@ static void parse_number(const char *p)
             if (t == 'L') {
                 if (lcount >= 2)
                     tcc_error("three 'l's in integer constant");
-                if (lcount && *(p - 1) != ch)
-                    tcc_error("incorrect integer suffix: %s", p1);
+                if (lcount && *(p - 2) != ch)
+                    tcc_error("incorrect integer suffix: %s", p1 - 1);
                 lcount++;
                 ch = *p++;
             } else if (t == 'U') {
-- 
2.43.0


From a2d463592a46d5ea0dcc3e71c58966d64ae59afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 40/56] fix: hexadecimal floating constants lost digits beyond
 the 16th and long double precision

---
 lib/tinycc/tccpp.c | 81 ++++++++++++++++++++++++----------------------
 1 file changed, 43 insertions(+), 38 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 304bfad..07b1dd7 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2221,26 +2221,25 @@ static void parse_string(const char *s, int len)
     }
 }
 
-/* we use 64 bit numbers */
-#define BN_SIZE 2
+/* mantissa of a hexadecimal or binary floating constant: the 64 leading bits,
+   how many bits follow them and their value as a fraction of the last one */
+struct bn {
+    uint64_t m;
+    int dropped, half, sticky;
+};
 
-/* bn = (bn << shift) | or_val */
-static void bn_lshift(unsigned int *bn, int shift, int or_val)
+static void bn_lshift(struct bn *bn, int shift, int or_val)
 {
-    int i;
-    unsigned int v;
-    for(i=0;i<BN_SIZE;i++) {
-        v = bn[i];
-        bn[i] = (v << shift) | or_val;
-        or_val = v >> (32 - shift);
-    }
-}
+    int bit;
 
-static void bn_zero(unsigned int *bn)
-{
-    int i;
-    for(i=0;i<BN_SIZE;i++) {
-        bn[i] = 0;
+    while (shift--) {
+        bit = (or_val >> shift) & 1;
+        if (!(bn->m >> 63))
+            bn->m = bn->m << 1 | bit;
+        else if (bn->dropped++ == 0)
+            bn->half = bit;
+        else
+            bn->sticky |= bit;
     }
 }
 
@@ -2250,8 +2249,8 @@ static void parse_number(const char *p)
 {
     int b, t, shift, frac_bits, s, exp_val, ch;
     char *q;
-    unsigned int bn[BN_SIZE];
-    double d;
+    struct bn bn;
+    long double ld;
 
     /* number */
     q = token_buf;
@@ -2307,7 +2306,7 @@ static void parse_number(const char *p)
                 shift = 4;
             else 
                 shift = 1;
-            bn_zero(bn);
+            memset(&bn, 0, sizeof bn);
             q = token_buf;
             while (1) {
                 t = *q++;
@@ -2320,7 +2319,7 @@ static void parse_number(const char *p)
                 } else {
                     t = t - '0';
                 }
-                bn_lshift(bn, shift, t);
+                bn_lshift(&bn, shift, t);
             }
             frac_bits = 0;
             if (ch == '.') {
@@ -2338,7 +2337,7 @@ static void parse_number(const char *p)
                     }
                     if (t >= b)
                         tcc_error("invalid digit");
-                    bn_lshift(bn, shift, t);
+                    bn_lshift(&bn, shift, t);
                     frac_bits += shift;
                     ch = *p++;
                 }
@@ -2359,33 +2358,39 @@ static void parse_number(const char *p)
             if (ch < '0' || ch > '9')
                 expect("exponent digits");
             while (ch >= '0' && ch <= '9') {
-                exp_val = exp_val * 10 + ch - '0';
+                if (exp_val < 100000)
+                    exp_val = exp_val * 10 + ch - '0';
                 ch = *p++;
             }
-            exp_val = exp_val * s;
+            exp_val = exp_val * s - frac_bits + bn.dropped;
             
             /* now we can generate the number */
-            /* XXX: should patch directly float number */
-            d = (double)bn[1] * 4294967296.0 + (double)bn[0];
-            d = ldexp(d, exp_val - frac_bits);
             t = toup(ch);
-            if (t == 'F') {
-                ch = *p++;
-                tok = TOK_CFLOAT;
-                /* float : should handle overflow */
-                tokc.f = (float)d;
-            } else if (t == 'L') {
+            if (t == 'L') {
                 ch = *p++;
                 tok = TOK_CLDOUBLE;
+                ld = bn.m;
+                ld += bn.half * 0.5 + bn.sticky * 0.25;
+                ld = ldexpl(ld, exp_val);
 #ifdef TCC_USING_DOUBLE_FOR_LDOUBLE
-                tokc.d = d;
+                tokc.d = (double)ld;
 #else
-                /* XXX: not large enough */
-                tokc.ld = (long double)d;
+                tokc.ld = ld;
 #endif
             } else {
-                tok = TOK_CDOUBLE;
-                tokc.d = d;
+                /* the last bit stands for all the following ones, to have the
+                   conversion to a shorter type round the exact value */
+                ld = bn.m | bn.half | bn.sticky;
+                ld = ldexpl(ld, exp_val);
+                if (t == 'F') {
+                    ch = *p++;
+                    tok = TOK_CFLOAT;
+                    /* float : should handle overflow */
+                    tokc.f = (float)ld;
+                } else {
+                    tok = TOK_CDOUBLE;
+                    tokc.d = (double)ld;
+                }
             }
         } else {
             /* decimal floats */
-- 
2.43.0


From 3f18fbedaec34d690b6ef7e35907ba577ec587c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 41/56] fix: escape sequences out of range were not diagnosed

---
 lib/tinycc/tccpp.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 07b1dd7..bb4d4ea 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1995,14 +1995,16 @@ ST_FUNC void preprocess(int is_bof)
 /* evaluate escape codes in a string. */
 static void parse_escape_string(CString *outstr, const uint8_t *buf, int is_long)
 {
-    int c, n, i;
+    int c, n, i, ov;
     const uint8_t *p;
+    char utf8[4];
 
     p = buf;
     for(;;) {
         c = *p;
         if (c == '\0')
             break;
+        ov = 0;
         if (c == '\\') {
             p++;
             /* escape */
@@ -2023,8 +2025,7 @@ static void parse_escape_string(CString *outstr, const uint8_t *buf, int is_long
                         p++;
                     }
                 }
-                c = n;
-                goto add_char_nonext;
+                goto add_num;
             case 'x': i = 0; goto parse_hex_or_ucn;
             case 'u': i = 4; goto parse_hex_or_ucn;
             case 'U': i = 8; goto parse_hex_or_ucn;
@@ -2042,17 +2043,25 @@ static void parse_escape_string(CString *outstr, const uint8_t *buf, int is_long
                     else if (i >= 0)
                         expect("more hex digits in universal-character-name");
                     else
-                        goto add_hex_or_ucn;
-                    n = n * 16 + c;
+                        goto add_num;
+                    if (i < 0 && (unsigned)n >> 28)
+                        ov = 1;
+                    n = (unsigned)n * 16 + c;
                     p++;
                 } while (--i);
-		if (is_long) {
-    add_hex_or_ucn:
-                    c = n;
-		    goto add_char_nonext;
-		}
-                cstr_u8cat(outstr, n);
-                continue;
+                if (!is_long) {
+                    cstr_u8cat(outstr, n);
+                    continue;
+                }
+                /* check the value */
+                unicode_to_utf8(utf8, n);
+                c = n;
+                goto add_char_nonext;
+    add_num:
+                if (ov || (!is_long && (unsigned)n > 0xff))
+                    tcc_warning("escape sequence out of range");
+                c = n;
+                goto add_char_nonext;
             case 'a':
                 c = '\a';
                 break;
-- 
2.43.0


From 37a49395c5e6f6663e3dcb1f0ef59f99a642e5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 42/56] fix: concatenated narrow and wide string literals gave
 wrong contents

---
 lib/tinycc/tccgen.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index f47614f..4260e00 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7854,7 +7854,14 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
                 else
                   len += tokc.str.size / sizeof(nwchar_t);
                 len--;
-                cstr_cat(&initstr, tokc.str.data, tokc.str.size);
+                if ((tok == TOK_STR) == (size1 == 1))
+                    cstr_cat(&initstr, tokc.str.data, tokc.str.size);
+                else for (i = 0; i < tokc.str.size; i++) {
+                    /* L"a" "b" is L"ab" */
+                    if (size1 == 1 || (tokc.str.data[i] & 0x80))
+                        tcc_error("unhandled string literal merging");
+                    cstr_wccat(&initstr, tokc.str.data[i]);
+                }
                 next();
             }
             if (tok != ')' && tok != '}' && tok != ',' && tok != ';'
-- 
2.43.0


From c366dcdca49af3f8dd7624a1599d528d5dd2f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:46 +0000
Subject: [PATCH 43/56] fix: elements after a nested or anonymous member
 designator went to the wrong member, reinitialized static members kept old
 values

---
 lib/tinycc/tccgen.c | 108 +++++++++++++++++++++++++++-----------------
 1 file changed, 67 insertions(+), 41 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 4260e00..5d7c06e 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7415,7 +7415,9 @@ static void init_putz(init_params *p, unsigned long c, int size)
 {
     init_assert(p, c + size);
     if (p->sec) {
-        /* nothing to do because globals are already set to zero */
+        /* globals are already set to zero, except where initialized before */
+        if (!NODATA_WANTED)
+            memset(p->sec->data + c, 0, size);
     } else {
         vpush_helper_func(TOK_memset);
         vseti(VT_LOCAL, c);
@@ -7432,6 +7434,7 @@ static void init_putz(init_params *p, unsigned long c, int size)
 #define DIF_SIZE_ONLY 2
 #define DIF_HAVE_ELEM 4
 #define DIF_CLEAR     8
+#define DIF_DESIG     16 /* at the rest of a designator like '.b' in '.a.b' */
 
 /* delete relocations for specified range c ... c + size. Unfortunatly
    in very special cases, relocations may occur unordered */
@@ -7473,11 +7476,12 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
                            Sym **cur_field, int flags, int al)
 {
     Sym *s, *f;
-    int index, index_last, align, l, nb_elems, elem_size;
+    int index, index_last, align, l, nb_elems, elem_size, desig;
     unsigned long corig = c;
 
     elem_size = 0;
     nb_elems = 1;
+    desig = 0;
 
     if (flags & DIF_HAVE_ELEM)
         goto no_designator;
@@ -7490,43 +7494,53 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
     }
 
     /* NOTE: we only support ranges for last designator */
-    while (nb_elems == 1 && (tok == '[' || tok == '.')) {
-        if (tok == '[') {
-            if (!(type->t & VT_ARRAY))
-                expect("array type");
-            next();
-            index = index_last = expr_const();
-            if (tok == TOK_DOTS && gnu_ext) {
-                next();
-                index_last = expr_const();
-            }
-            skip(']');
-            s = type->ref;
-            decl_design_flex(p, s, index_last);
-            if (index < 0 || index_last >= s->c || index_last < index)
-	        tcc_error("index exceeds array bounds or range is empty");
-            if (cur_field)
-		(*cur_field)->c = index_last;
-            type = pointed_type(type);
-            elem_size = type_size(type, &align);
-            c += index * elem_size;
-            nb_elems = index_last - index + 1;
-        } else {
-            int cumofs;
-            next();
-            l = tok;
-        struct_field:
+    if (tok == '[') {
+        if (!(type->t & VT_ARRAY))
+            expect("array type");
+        next();
+        index = index_last = expr_const();
+        if (tok == TOK_DOTS && gnu_ext) {
             next();
-	    f = find_field(type, l, &cumofs);
-            if (cur_field)
-                *cur_field = f;
-	    type = &f->type;
-            c += cumofs;
+            index_last = expr_const();
         }
-        cur_field = NULL;
-    }
-    if (!cur_field) {
-        if (tok == '=') {
+        skip(']');
+        s = type->ref;
+        decl_design_flex(p, s, index_last);
+        if (index < 0 || index_last >= s->c || index_last < index)
+            tcc_error("index exceeds array bounds or range is empty");
+        (*cur_field)->c = index_last;
+        type = pointed_type(type);
+        elem_size = type_size(type, &align);
+        c += index * elem_size;
+        nb_elems = index_last - index + 1;
+        desig = 1;
+    } else if (tok == '.') {
+        int cumofs;
+        next();
+        l = tok;
+    struct_field:
+        next();
+        find_field(type, l, &cumofs);
+        for (f = type->ref->next; f->v != (l | SYM_FIELD); f = f->next)
+            if ((f->type.t & VT_BTYPE) == VT_STRUCT
+                && f->v >= (SYM_FIRST_ANOM | SYM_FIELD)
+                && find_field(&f->type, l | SYM_FIELD, &cumofs)) {
+                /* look for it in that anonymous sub-struct/union */
+                unget_tok(l);
+                unget_tok('.');
+                break;
+            }
+        *cur_field = f;
+        type = &f->type;
+        c += f->c;
+        desig = 1;
+    }
+    if (desig) {
+        if (nb_elems == 1 && (tok == '[' || tok == '.')) {
+            /* the rest of the designator, and the elements after it,
+               belong to that element */
+            desig = DIF_DESIG;
+        } else if (tok == '=') {
             next();
         } else if (!gnu_ext) {
 	    expect("=");
@@ -7561,12 +7575,15 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
     /* Using designators the same element can be initialized more
        than once.  In that case we need to delete possibly already
        existing relocations. */
-    if (!(flags & DIF_SIZE_ONLY) && c - corig < al) {
-        decl_design_delrels(p->sec, c, elem_size * nb_elems);
+    if (!(flags & DIF_SIZE_ONLY)
+        && (c - corig < al || !(flags & DIF_CLEAR))) {
+        if (desig != DIF_DESIG)
+            decl_design_delrels(p->sec, c, elem_size * nb_elems);
         flags &= ~DIF_CLEAR; /* mark stack dirty too */
     }
 
-    decl_initializer(p, type, c, flags & ~DIF_FIRST);
+    flags &= ~(DIF_FIRST | DIF_DESIG);
+    decl_initializer(p, type, c, flags | (desig & DIF_DESIG));
 
     if (!(flags & DIF_SIZE_ONLY) && nb_elems > 1) {
         Sym aref = {0};
@@ -7801,6 +7818,8 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
         tcc_debug_line(tcc_state), tcc_tcov_check_line (tcc_state, 1);
 
     if (!(flags & DIF_HAVE_ELEM) && tok != '{' &&
+	!((flags & DIF_DESIG) && ((type->t & VT_ARRAY)
+                                  || (type->t & VT_BTYPE) == VT_STRUCT)) &&
 	/* In case of strings we have special handling for arrays, so
 	   don't consume them as initializer value (which would commit them
 	   to some anonymous symbol).  */
@@ -7887,6 +7906,8 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
                     init_assert(p, c + nb);
                     if (!NODATA_WANTED)
                       memcpy(p->sec->data + c, initstr.data, nb);
+                    if (nb < n && !(flags & DIF_CLEAR))
+                      init_putz(p, c + nb, n - nb);
                 } else {
                     for(i=0;i<n;i++) {
                         if (i >= nb) {
@@ -7916,7 +7937,7 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 
           do_init_list:
             /* zero memory once in advance */
-            if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY))) {
+            if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY | DIF_DESIG))) {
                 init_putz(p, c, n*size1);
                 flags |= DIF_CLEAR;
             }
@@ -7948,6 +7969,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 		if (tok == '}')
 		    break;
 		skip(',');
+		if (no_oblock && (tok == '[' || tok == '.')) {
+		    /* a designator is for the list in braces */
+		    unget_tok(',');
+		    break;
+		}
 	    }
         }
         if (!no_oblock)
-- 
2.43.0


From 321586cfee099b91ee701a866506c9b835cf31e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 44/56] fix: of two tentative definitions in different modules
 the smaller one could be kept

---
 lib/tinycc/tccelf.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index da96e3e..bc8740c 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -700,7 +700,20 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
                 /* data symbol gets precedence over common/bss */
                 goto do_patch;
             } else if (shndx == SHN_COMMON || shndx == bss_section->sh_num) {
-                /* data symbol keeps precedence over common/bss */
+                /* data symbol keeps precedence over common/bss, of two of
+                   those take the larger one */
+                if (!(s->sh_flags & SHF_DYNSYM)
+                    && (esym->st_shndx == SHN_COMMON
+                        || esym->st_shndx == bss_section->sh_num)) {
+                    if (shndx == SHN_COMMON && esym->st_shndx == SHN_COMMON) {
+                        /* the value is the alignment */
+                        if (value > esym->st_value)
+                            esym->st_value = value;
+                        value = esym->st_value;
+                    }
+                    if (size > esym->st_size)
+                        goto do_patch;
+                }
             } else if (s->sh_flags & SHF_DYNSYM) {
                 /* we accept that two DLL define the same symbol */
 	    } else if (esym->st_other & ST_ASM_SET) {
-- 
2.43.0


From e04258d45c61842211a07e5205c422c2800764c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 45/56] fix: a weak reference made the strong references to the
 same undefined symbol weak

---
 lib/tinycc/tccelf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index bc8740c..601868b 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -729,6 +729,10 @@ ST_FUNC int set_elf_sym(Section *s, addr_t value, unsigned long size,
             }
         } else {
             esym->st_other = other;
+            /* a weak reference does not make the others weak */
+            if (shndx == SHN_UNDEF && sym_bind == STB_WEAK
+                && ELFW(ST_BIND)(esym->st_info) == STB_GLOBAL)
+                return sym_index;
         do_patch:
             esym->st_info = ELFW(ST_INFO)(sym_bind, sym_type);
             esym->st_shndx = shndx;
-- 
2.43.0


From 82f94e03b494691d9ad2eb4ee2788b5fab7d24c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 46/56] fix: objects of another ELF class were read as 64-bit
 ones

---
 lib/tinycc/tccelf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 601868b..1d7fb3c 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3102,7 +3102,8 @@ ST_FUNC int tcc_load_object_file(TCCState *s1,
     if (tcc_object_type(fd, &ehdr) != AFF_BINTYPE_REL)
         goto invalid;
     /* test CPU specific stuff */
-    if (ehdr.e_ident[5] != ELFDATA2LSB ||
+    if (ehdr.e_ident[4] != ELFCLASSW ||
+        ehdr.e_ident[5] != ELFDATA2LSB ||
         ehdr.e_machine != EM_TCC_TARGET) {
 invalid:
         return tcc_error_noabort("invalid object file");
-- 
2.43.0


From f75a765c77bb8a1f900f9f890232c0938287e1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:21 +0000
Subject: [PATCH 47/56] fix: a linker script or unknown file starting with byte
 255 was taken as empty

---
 lib/tinycc/tccelf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccelf.c b/lib/tinycc/tccelf.c
index 1d7fb3c..bedd7dc 100644
--- a/lib/tinycc/tccelf.c
+++ b/lib/tinycc/tccelf.c
@@ -3768,7 +3768,7 @@ ST_FUNC int tcc_load_dll(TCCState *s1, int fd, const char *filename, int level)
 
 static int ld_inp(TCCState *s1)
 {
-    char b;
+    unsigned char b;
     if (s1->cc != -1) {
         int c = s1->cc;
         s1->cc = -1;
-- 
2.43.0


From a32181c203858655cf3bbf831511be4d860318e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 48/56] fix: a static char array or number initialised with a
 string in place of a constant read behind the string

---
 lib/tinycc/tccgen.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 5d7c06e..25599fe 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7640,7 +7640,8 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
             && bt != VT_PTR
             && (bt != (PTR_SIZE == 8 ? VT_LLONG : VT_INT)
                 || (type->t & VT_BITFIELD))
-            && !((vtop->r & VT_CONST) && vtop->sym->v >= SYM_FIRST_ANOM)
+            && !(((vtop->r & VT_LVAL) || bt == VT_STRUCT)
+                 && vtop->sym->v >= SYM_FIRST_ANOM)
             )
             tcc_error("initializer element is not computable at load time");
 
@@ -7654,6 +7655,7 @@ static void init_putv(init_params *p, CType *type, unsigned long c)
 
         /* XXX: make code faster ? */
 	if ((vtop->r & (VT_SYM|VT_CONST)) == (VT_SYM|VT_CONST) &&
+	    ((vtop->r & VT_LVAL) || (vtop->type.t & VT_BTYPE) == VT_STRUCT) &&
 	    vtop->sym->v >= SYM_FIRST_ANOM &&
 	    /* XXX This rejects compound literals like
 	       '(void *){ptr}'.  The problem is that '&sym' is
-- 
2.43.0


From 6a3d13c6c9266898707ae6ba402ac03bf0840f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 49/56] fix: floating values passed as integer constant
 expressions and array sizes were cut to 32 bits

---
 lib/tinycc/tccgen.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 25599fe..e475c32 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -5037,13 +5037,13 @@ static int post_type(CType *type, AttributeDef *ad, int storage, int td)
 		gexpr();
 	    }
 check:
+            if (!is_integer_btype(vtop->type.t & VT_BTYPE))
+                tcc_error("size of variable length array should be an integer");
             if ((vtop->r & (VT_VALMASK | VT_LVAL | VT_SYM)) == VT_CONST) {
                 n = vtop->c.i;
-                if (n < 0)
+                if (n < 0 || n != vtop->c.i)
                     tcc_error("invalid array size");
             } else {
-                if (!is_integer_btype(vtop->type.t & VT_BTYPE))
-                    tcc_error("size of variable length array should be an integer");
                 n = 0;
                 t1 = VT_VLA;
             }
@@ -5060,6 +5060,9 @@ check:
 
         t1 |= type->t & VT_VLA;
 
+        if (!(t1 & VT_VLA) && n > 0
+            && (int64_t)n * type_size(type, &align) > 0x7fffffff)
+            tcc_error("array is too large");
         if (t1 & VT_VLA) {
             if (n < 0) {
 		if  (td & TYPE_NEST)
@@ -6594,6 +6597,8 @@ ST_FUNC int64_t expr_const64(void)
     expr_const1();
     if ((vtop->r & (VT_VALMASK | VT_LVAL | VT_SYM | VT_NONCONST)) != VT_CONST)
         expect("constant expression");
+    if (is_float(vtop->type.t))
+        expect("integer constant expression");
     c = vtop->c.i;
     vpop();
     return c;
-- 
2.43.0


From 400f7cd55305f1db6fe82e1b661967002f431100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:27 +0000
Subject: [PATCH 50/56] fix: programs of 2 GB and more failed without a message
 or wrapped around

---
 lib/tinycc/tccrun.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tinycc/tccrun.c b/lib/tinycc/tccrun.c
index b0cb4db..21e75bb 100644
--- a/lib/tinycc/tccrun.c
+++ b/lib/tinycc/tccrun.c
@@ -373,6 +373,9 @@ redo:
                     align = PAGESIZE;
             }
             s->sh_addralign = align;
+            /* the size and all distances have to fit in an int */
+            if ((uint64_t)offset + s->data_offset + align + PAGESIZE > 0x7fffffff)
+                return tcc_error_noabort("program is too large");
             addr = k ? mem + ptr_diff : mem;
             offset += -(addr + offset) & (align - 1);
             s->sh_addr = mem ? addr + offset : 0;
-- 
2.43.0


From d9cf1d4ff44bd62217e12b247d134adefe060a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 51/56] fix: a field access at the end of the file crashed the
 compiler

---
 lib/tinycc/tccgen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index e475c32..41e02fb 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4047,7 +4047,7 @@ static Sym * find_field (CType *type, int v, int *cumofs)
 {
     Sym *s = type->ref;
     int v1 = v | SYM_FIELD;
-    if (!(v & SYM_FIELD)) { /* top-level call */
+    if (v < 0 || !(v & SYM_FIELD)) { /* top-level call (TOK_EOF has all bits) */
         if ((type->t & VT_BTYPE) != VT_STRUCT)
             expect("struct or union");
         if (v < TOK_UIDENT)
-- 
2.43.0


From e04c8d504e710737d0da7ab39ebe272760550917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 52/56] fix: pasting two slashes made the preprocessor warn
 forever

---
 lib/tinycc/tccpp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index bb4d4ea..66eeffc 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -3159,6 +3159,10 @@ static inline int *macro_twosharps(const int *ptr0)
             memcpy(file->buffer, tokcstr.data, tokcstr.size);
             tok_flags = 0; /* don't interpret '#' */
             for (n = 0;;n = l) {
+                if (file->buf_ptr[0] == '/'
+                    && (file->buf_ptr[1] == '/' || file->buf_ptr[1] == '*'))
+                    tcc_error("pasting formed '%s', an invalid preprocessing"
+                        " token", file->buf_ptr);
                 next_nomacro();
                 tok_str_add2(&macro_str1, tok, &tokc);
                 if (*file->buf_ptr == 0)
-- 
2.43.0


From fbfcfcce9ef08f8169c06024ef8fb9d23e177cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:38 +0000
Subject: [PATCH 53/56] fix: a string ending in a lone backslash was read
 behind its end

---
 lib/tinycc/tccpp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index 66eeffc..befcbe4 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -2006,6 +2006,10 @@ static void parse_escape_string(CString *outstr, const uint8_t *buf, int is_long
             break;
         ov = 0;
         if (c == '\\') {
+            if (p[1] == '\0') {
+                tcc_warning("invalid string literal, ignoring final '\\'");
+                break;
+            }
             p++;
             /* escape */
             c = *p;
-- 
2.43.0


From b78345bff2af79a848bf42db1f13cb70c4754036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 54/56] fix: #line expands macros and reads its number as
 decimal

---
 lib/tinycc/tccpp.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/tinycc/tccpp.c b/lib/tinycc/tccpp.c
index befcbe4..0a8df89 100644
--- a/lib/tinycc/tccpp.c
+++ b/lib/tinycc/tccpp.c
@@ -1928,23 +1928,33 @@ ST_FUNC void preprocess(int is_bof)
         }
         break;
     case TOK_LINE:
-        next_nomacro();
+        /* macros are expanded, the number is not converted */
+        parse_flags &= ~(PARSE_FLAG_TOK_NUM | PARSE_FLAG_TOK_STR);
+        next();
         if (tok != TOK_PPNUM)
     _line_err:
             tcc_error("wrong #line format");
     case TOK_PPNUM:
-        parse_number(tokc.str.data);
-        n = tokc.i;
-        next_nomacro();
+        /* a digit sequence, always decimal */
+        for (q = tokc.str.data, n = 0; isnum(*q); q++)
+            n = (unsigned)n * 10 + *q - '0';
+        if (*q)
+            goto _line_err;
+        if (parse_flags & PARSE_FLAG_TOK_NUM)
+            next_nomacro();
+        else
+            next();
         if (tok != TOK_LINEFEED) {
-            if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
+            if (tok == TOK_STR) { /* __FILE__ */
+                tccpp_putfile(tokc.str.data);
+            } else if (tok == TOK_PPSTR && tokc.str.data[0] == '"') {
                 tokc.str.data[tokc.str.size - 2] = 0;
                 tccpp_putfile(tokc.str.data + 1);
             } else if (parse_flags & PARSE_FLAG_ASM_FILE)
                 goto ignore;
             else
                 goto _line_err;
-            next_nomacro();
+            next(); /* also leaves the macro */
         }
         if (file->fd > 0)
             total_lines += file->line_num - n;
-- 
2.43.0


From d477d9e18fbb8e17186741dea58141f4251fc657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:30 +0000
Subject: [PATCH 55/56] fix: an elided sub-list cleared members initialised
 before it

A designator into a nested aggregate, or a continuation without braces,
zeroed the whole sub-object and dropped the relocations of members that
had already been given a value.
---
 lib/tinycc/tccgen.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index 41e02fb..e4764e4 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -7582,9 +7582,9 @@ static int decl_designator(init_params *p, CType *type, unsigned long c,
        existing relocations. */
     if (!(flags & DIF_SIZE_ONLY)
         && (c - corig < al || !(flags & DIF_CLEAR))) {
-        if (desig != DIF_DESIG)
-            decl_design_delrels(p->sec, c, elem_size * nb_elems);
         flags &= ~DIF_CLEAR; /* mark stack dirty too */
+        if (nb_elems > 1)
+            decl_design_delrels(p->sec, c, elem_size * nb_elems);
     }
 
     flags &= ~(DIF_FIRST | DIF_DESIG);
@@ -7902,6 +7902,8 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
             decl_design_flex(p, s, len);
             if (!(flags & DIF_SIZE_ONLY)) {
                 int nb = n, ch;
+                if (!(flags & (DIF_CLEAR | DIF_FIRST)))
+                    decl_design_delrels(p->sec, c, n*size1);
                 if (len < nb)
                     nb = len;
                 if (len > nb)
@@ -7943,8 +7945,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
 	    f = &indexsym;
 
           do_init_list:
-            /* zero memory once in advance */
-            if (!(flags & (DIF_CLEAR | DIF_SIZE_ONLY | DIF_DESIG))) {
+            /* zero memory once in advance, unless this is a part of the
+               list in braces: what it does not name keeps its value */
+            if (!no_oblock && !(flags & (DIF_CLEAR | DIF_SIZE_ONLY))) {
+                if (!(flags & DIF_FIRST))
+                    decl_design_delrels(p->sec, c, n*size1);
                 init_putz(p, c, n*size1);
                 flags |= DIF_CLEAR;
             }
@@ -8040,8 +8045,11 @@ static void decl_initializer(init_params *p, CType *type, unsigned long c, int f
             && btype_size(type->t & VT_BTYPE) /* not for fp constants */
             )
             vpop();
-        else
+        else {
+            if (!(flags & (DIF_CLEAR | DIF_FIRST)) && !(type->t & VT_BITFIELD))
+                decl_design_delrels(p->sec, c, type_size(type, &align1));
             init_putv(p, type, c);
+        }
     }
 }
 
-- 
2.43.0


From b5ba652f4cd7f1f1e42101b88b6b8a98a96fe4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 56/56] fix: a full-width bit-field under #pragma pack was
 aligned to a byte

---
 lib/tinycc/tccgen.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/tinycc/tccgen.c b/lib/tinycc/tccgen.c
index e4764e4..cc047a1 100644
--- a/lib/tinycc/tccgen.c
+++ b/lib/tinycc/tccgen.c
@@ -4520,7 +4520,8 @@ do_decl:
                             tcc_error("width of '%s' exceeds its type",
                                   get_tok_str(v, NULL));
                         } else if (bit_size == bsize
-                                    && !ad.a.packed && !ad1.a.packed) {
+                                    && !ad.a.packed && !ad1.a.packed
+                                    && !*tcc_state->pack_stack_ptr) {
                             /* no need for bit fields */
                             ;
                         } else if (bit_size == 64) {
-- 
2.43.0

