From 96e0dc9d177c6ff773533606596cb5c6dda89421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:18 +0000
Subject: [PATCH 01/34] fix: exit with a failure status when running out of
 memory

main() swallowed MemoryError and returned None, so the tool reported success
for a copy (or a bmap) that was cut short.
---
 bmaptools/CLI.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 82303b7..790b593 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -792,6 +792,8 @@ def main():
             for line in file_obj:
                 print(line.strip())
 
+        raise SystemExit(1)
+
 
 if __name__ == "__main__":
     sys.exit(main())
-- 
2.43.0


From b840dca1499f3303cb66dc36aec93b82d513bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 02/34] fix: report a broken source instead of treating it as
 the end of data

TransRead took the end of what the decompressor or the ssh process delivered for
the end of the image, whatever their exit status was, lost the errors of the
reader thread, and did not notice HTTP connections which were closed before the
announced length had arrived. Without a bmap (or when the bmap has no checksums)
a copy of a broken source was then reported as successful.
---
 bmaptools/CLI.py       | 10 ++++-
 bmaptools/TransRead.py | 86 +++++++++++++++++++++++++++++++++++++++---
 2 files changed, 88 insertions(+), 8 deletions(-)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 790b593..3995dcc 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -192,7 +192,10 @@ def verify_detached_bmap_signature(args, bmap_obj, bmap_path):
         except IOError as err:
             error_out("cannot create a temporary file for the signature:\n%s", err)
 
-        shutil.copyfileobj(sig_obj, tmp_obj)
+        try:
+            shutil.copyfileobj(sig_obj, tmp_obj)
+        except TransRead.Error as err:
+            error_out("cannot read bmap signature file '%s':\n%s", sig_path, err)
         tmp_obj.seek(0)
         sig_obj.close()
         sig_obj = tmp_obj
@@ -378,7 +381,10 @@ def find_and_open_bmap(args):
     except IOError as err:
         error_out("cannot create a temporary file for bmap:\n%s", err)
 
-    shutil.copyfileobj(bmap_obj, tmp_obj)
+    try:
+        shutil.copyfileobj(bmap_obj, tmp_obj)
+    except TransRead.Error as err:
+        error_out("cannot read bmap file '%s':\n%s", bmap_path, err)
 
     tmp_obj.flush()
     tmp_obj.seek(0)
diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 3d1dd9c..f68a4d9 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -172,8 +172,13 @@ class TransRead(object):
         self.is_url = False
         # List of child processes we forked
         self._child_processes = []
-        # The reader thread
+        # The decompressor process and the process which delivers the file over
+        # ssh (both also are in 'self._child_processes')
+        self._decompressor = None
+        self._ssh_process = None
+        # The reader thread and the error which stopped it
         self._rthread = None
+        self._rthread_error = None
         # This variable becomes 'True' when the instance of this class is not
         # usable any longer.
         self._done = False
@@ -237,13 +242,68 @@ class TransRead(object):
             while not self._done:
                 buf = f_from.read(chunk_size)
                 if not buf:
+                    self._check_source()
                     break
 
                 f_to.write(buf)
+
+            f_to.flush()
+        except BrokenPipeError:
+            # The decompressor does not need the rest of the data or failed. In
+            # the latter case its exit code tells.
+            pass
+        except Exception as err:  # pylint: disable=W0703
+            # This has to be saved before the decompressor gets EOF: once the
+            # user of this class sees the end of the decompressed data, it is
+            # too late.
+            self._rthread_error = err
         finally:
             # This will make sure the process decompressor gets EOF and exits, as
             # well as ublocks processes waiting on decompressor's stdin.
-            f_to.close()
+            try:
+                f_to.close()
+            except BrokenPipeError:
+                pass
+
+    def _check_source(self):
+        """
+        This function has to be called when the end of the file or URL we read
+        was reached. It makes sure that this is the end indeed, and not a broken
+        connection or a failure of the ssh process.
+        """
+
+        if getattr(self._f_objs[0], "length", None):
+            raise Error(
+                "cannot read '%s': the connection was closed too early, %d bytes "
+                "are missing" % (self.name, self._f_objs[0].length)
+            )
+
+        if self._ssh_process:
+            retcode = self._ssh_process.wait()
+            if retcode != 0:
+                raise Error(
+                    "cannot read '%s': %s (error code %d)"
+                    % (self.name, _decode_sshpass_exit_code(retcode), retcode)
+                )
+
+    def _check_end(self):
+        """
+        This function has to be called when there are no more data to read. It
+        raises an exception if this is a result of a failure.
+        """
+
+        if not self._decompressor:
+            self._check_source()
+            return
+
+        retcode = self._decompressor.wait()
+        if self._rthread_error:
+            raise Error("cannot read '%s': %s" % (self.name, self._rthread_error))
+        if retcode != 0 and retcode not in self._warning_codes:
+            raise Error(
+                "cannot decompress '%s': the decompressor failed with error "
+                "code %d" % (self.name, retcode)
+            )
 
     def _open_compressed_file(self):
         """
@@ -355,6 +415,8 @@ class TransRead(object):
             return False
 
         archiver = None
+        # Exit codes which mean that there was a warning, but no errors
+        self._warning_codes = ()
         if is_tar_gz(self.name) or is_gzip(self.name):
             self.compression_type = "gzip"
             if BmapHelpers.program_is_available("pigz"):
@@ -437,6 +499,9 @@ class TransRead(object):
                 'required reading "%s"' % (archiver, self.name)
             )
 
+        if not archiver and decompressor in ("gzip", "pigz", "xz", "lzop"):
+            self._warning_codes = (2,)
+
         # Start the decompressor process. We'll send the data to its stdin and
         # read the decompressed data from its stdout.
         if archiver:
@@ -456,6 +521,7 @@ class TransRead(object):
             stdin=child_stdin,
             stdout=subprocess.PIPE,
         )
+        self._decompressor = child_process
 
         if child_stdin == subprocess.PIPE:
             # A separate reader thread is created only when we are reading via
@@ -560,6 +626,7 @@ class TransRead(object):
         self._f_objs.append(child_process.stdout)
 
         self._child_processes.append(child_process)
+        self._ssh_process = child_process
         self.is_url = True
         self._fake_seek = True
 
@@ -672,21 +739,28 @@ class TransRead(object):
             size = 0xFFFFFFFFFFFFFFFF
         buf = self._f_objs[-1].read(size)
         self._pos += len(buf)
+        if len(buf) < size:
+            self._check_end()
 
         return buf
 
     def seek(self, offset, whence=os.SEEK_SET):
         """The 'seek()' method, similar to the one file objects have."""
         if self._fake_seek or not hasattr(self._f_objs[-1], "seek"):
-            self._pos = _fake_seek_forward(self._f_objs[-1], self._pos, offset, whence)
+            self._seek_forward(offset, whence)
         else:
             try:
                 self._f_objs[-1].seek(offset, whence)
             except io.UnsupportedOperation:
                 self._fake_seek = True
-                self._pos = _fake_seek_forward(
-                    self._f_objs[-1], self._pos, offset, whence
-                )
+                self._seek_forward(offset, whence)
+
+    def _seek_forward(self, offset, whence):
+        """Seek forward by means of reading and throwing the data away."""
+        new_pos = offset if whence == os.SEEK_SET else self._pos + offset
+        self._pos = _fake_seek_forward(self._f_objs[-1], self._pos, offset, whence)
+        if self._pos < new_pos:
+            self._check_end()
 
     def tell(self):
         """The 'tell()' method, similar to the one file objects have."""
-- 
2.43.0


From 599c3c03f96c37f4dd75bc509664bc76a70a85d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 03/34] fix: make TransRead.read() without a size work

0xFFFFFFFFFFFFFFFF does not fit what python3 file objects accept, so reading up
to the end failed with OverflowError.
---
 bmaptools/TransRead.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index f68a4d9..3f85280 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -735,11 +735,10 @@ class TransRead(object):
         necessary.
         """
 
-        if size < 0:
-            size = 0xFFFFFFFFFFFFFFFF
-        buf = self._f_objs[-1].read(size)
+        read_all = size is None or size < 0
+        buf = self._f_objs[-1].read() if read_all else self._f_objs[-1].read(size)
         self._pos += len(buf)
-        if len(buf) < size:
+        if read_all or len(buf) < size:
             self._check_end()
 
         return buf
-- 
2.43.0


From 6256d278f8e54221c19db3e55b9ff09cc721c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:18 +0000
Subject: [PATCH 04/34] fix: make TransRead.tell() work for pipes and URLs

Before the first seek, tell() of an image coming from a pipe or an uncompressed
image behind an URL failed instead of returning the position.
---
 bmaptools/TransRead.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 3f85280..9c4290d 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -766,7 +766,16 @@ class TransRead(object):
         if self._fake_seek or not hasattr(self._f_objs[-1], "tell"):
             return self._pos
         else:
-            return self._f_objs[-1].tell()
+            try:
+                return self._f_objs[-1].tell()
+            except OSError as err:
+                # E.g., standard input may be a pipe, and URLs cannot be seeked
+                if (
+                    not isinstance(err, io.UnsupportedOperation)
+                    and err.errno != errno.ESPIPE
+                ):
+                    raise
+                return self._pos
 
     def close(self):
         """Close the file-like object."""
-- 
2.43.0


From 5e2d54a1f7b9164c170f0b5ddf683747213c7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 05/34] fix: do not accept an image which ends before its last
 mapped byte

---
 bmaptools/BmapCopy.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 9de7ef4..810d56c 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -640,6 +640,19 @@ class BmapCopy(object):
                             "image file '%s': %s" % (start, end, self._image_path, err)
                         )
 
+                    if self.image_size:
+                        # Only the last block of the image may be incomplete
+                        expected = min(
+                            length * self.block_size,
+                            self.image_size - start * self.block_size,
+                        )
+                        if len(buf) < expected:
+                            raise Error(
+                                "unexpected end of the image file '%s': got %d "
+                                "bytes instead of %d when reading blocks %d-%d"
+                                % (self._image_path, len(buf), expected, start, end)
+                            )
+
                     if not buf:
                         _log.debug(
                             "no more data to read from file '%s'", self._image_path
-- 
2.43.0


From 8acb166493826e610d9a0d109248c264a33bc88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:29 +0000
Subject: [PATCH 06/34] fix: copy images with blocks larger than the batch size

---
 bmaptools/BmapCopy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 810d56c..99e1214 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -295,7 +295,8 @@ class BmapCopy(object):
         if image_size:
             self._set_image_size(image_size)
 
-        self._batch_blocks = self._batch_bytes // self.block_size
+        # A block may be larger than the batch
+        self._batch_blocks = max(1, self._batch_bytes // self.block_size)
 
     def set_psplash_pipe(self, path):
         """
-- 
2.43.0


From b1c614fc483cd3c905b3010a088785ea0fa53dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:59 +0000
Subject: [PATCH 07/34] fix: handle data and holes which are not aligned to the
 block size

---
 bmaptools/Filemap.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/bmaptools/Filemap.py b/bmaptools/Filemap.py
index 6eb1213..8511aa9 100644
--- a/bmaptools/Filemap.py
+++ b/bmaptools/Filemap.py
@@ -297,7 +297,16 @@ class FilemapSeek(_FilemapBase):
 
             start_blk = start // self.block_size
             end_blk = end // self.block_size - 1
-            _log.debug("FilemapSeek: yielding range (%d, %d)" % (start_blk, end_blk))
+            # Data and holes may begin and end in the middle of a block when
+            # the file-system reports them with a finer granularity. A block is
+            # mapped if there are any data in it.
+            if whence1 == _SEEK_DATA:
+                if end % self.block_size:
+                    end_blk += 1
+            elif start % self.block_size:
+                start_blk += 1
+            if start_blk > end_blk:
+                continue
             yield (start_blk, end_blk)
 
     def get_mapped_ranges(self, start, count):
@@ -306,7 +315,25 @@ class FilemapSeek(_FilemapBase):
             "FilemapSeek: get_mapped_ranges(%d,  %d(%d))"
             % (start, count, start + count - 1)
         )
-        return self._get_ranges(start, count, _SEEK_DATA, _SEEK_HOLE)
+        iterator = self._get_ranges(start, count, _SEEK_DATA, _SEEK_HOLE)
+
+        try:
+            first_prev, last_prev = next(iterator)
+        except StopIteration:
+            return
+
+        for first, last in iterator:
+            if first <= last_prev + 1:
+                last_prev = last
+            else:
+                _log.debug(
+                    "FilemapSeek: yielding range (%d, %d)" % (first_prev, last_prev)
+                )
+                yield (first_prev, last_prev)
+                first_prev, last_prev = first, last
+
+        _log.debug("FilemapSeek: yielding range (%d, %d)" % (first_prev, last_prev))
+        yield (first_prev, last_prev)
 
     def get_unmapped_ranges(self, start, count):
         """Refer the '_FilemapBase' class for the documentation."""
-- 
2.43.0


From c27bb8ae78fe306909feaf838503ca99ec0d3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:07 +0000
Subject: [PATCH 08/34] fix: detect the ZFS file system on Python 3

---
 bmaptools/BmapHelpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/BmapHelpers.py b/bmaptools/BmapHelpers.py
index 0498995..b6fd882 100644
--- a/bmaptools/BmapHelpers.py
+++ b/bmaptools/BmapHelpers.py
@@ -116,7 +116,7 @@ def get_file_system_type(path):
         if len(lines) >= 2:
             fields = lines[1].split(None, 2)
             if len(fields) >= 2:
-                ftype = fields[1].lower()
+                ftype = fields[1].lower().decode("utf-8", "replace")
 
     if not ftype:
         raise Error(
-- 
2.43.0


From 6c38dbbbce52173a5d3504bfe5d8001e8b4f6f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 09/34] fix: make clearsigned bmap files usable and verified on
 Python 3

---
 bmaptools/CLI.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 3995dcc..010e0b6 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -261,17 +261,20 @@ def verify_clearsign_bmap_signature(args, bmap_obj):
 
     try:
         context = gpg.Context()
-        signature = io.FileIO(bmap_obj.name)
-        plaintext = io.BytesIO()
-        sigs = context.verify(plaintext, signature, None)
+        signed_data = io.FileIO(bmap_obj.name)
+        (plaintext, result) = context.verify(signed_data)
     except gpg.errors.GPGMEError as err:
         error_out(
             "failure when trying to verify GPG signature: %s\n"
             "make sure the bmap file has proper GPG format",
-            err[2].lower(),
+            err.getstring(),
         )
     except gpg.errors.BadSignatures as err:
-        error_out("discovered a BAD GPG signature: %s\n", sig_path)
+        if not args.no_sig_verify:
+            error_out("discovered a BAD GPG signature: %s\n", bmap_obj.name)
+        (plaintext, result) = err.results
+
+    sigs = result.signatures
 
     if not args.no_sig_verify:
         if len(sigs) == 0:
@@ -283,11 +286,11 @@ def verify_clearsign_bmap_signature(args, bmap_obj):
             report_verification_results(context, sigs)
 
     try:
-        tmp_obj = tempfile.TemporaryFile("w+")
+        tmp_obj = tempfile.TemporaryFile("wb+")
     except IOError as err:
         error_out("cannot create a temporary file for bmap:\n%s", err)
 
-    tmp_obj.write(plaintext.getvalue())
+    tmp_obj.write(plaintext)
     tmp_obj.seek(0)
     return tmp_obj
 
@@ -318,7 +321,7 @@ def verify_bmap_signature(args, bmap_obj, bmap_path):
     if not bmap_obj:
         return None
 
-    clearsign_marker = "-----BEGIN PGP SIGNED MESSAGE-----"
+    clearsign_marker = b"-----BEGIN PGP SIGNED MESSAGE-----"
     buf = bmap_obj.read(len(clearsign_marker))
     bmap_obj.seek(0)
 
-- 
2.43.0


From 57964ca41413e28ff250da583d1224d55ca6fab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 10/34] fix: do not ignore a bmap signature file which cannot
 be opened

---
 bmaptools/CLI.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 010e0b6..e486e21 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -175,11 +175,17 @@ def verify_detached_bmap_signature(args, bmap_obj, bmap_path):
         try:
             sig_path = bmap_path + ".asc"
             sig_obj = TransRead.TransRead(sig_path)
-        except TransRead.Error:
+        except TransRead.Error as err:
+            if os.path.exists(sig_path):
+                error_out("cannot open bmap signature file '%s':\n%s", sig_path, err)
             try:
                 sig_path = bmap_path + ".sig"
                 sig_obj = TransRead.TransRead(sig_path)
-            except TransRead.Error:
+            except TransRead.Error as err:
+                if os.path.exists(sig_path):
+                    error_out(
+                        "cannot open bmap signature file '%s':\n%s", sig_path, err
+                    )
                 # No signatures found
                 return None
 
-- 
2.43.0


From 3d3b175d25d2655041cb7975a7b6e4f05250d6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 11/34] fix: report a malformed netrc file properly

---
 bmaptools/TransRead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 9c4290d..ca5935f 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -670,7 +670,7 @@ class TransRead(object):
                     password = auth[2]
             except FileNotFoundError:
                 pass
-            except netc.NetrcParseError as e:
+            except netrc.NetrcParseError as e:
                 _log.error(f"Error parsing line {e.lineno} of {e.filename}: {e.msg}")
 
         if username and password:
-- 
2.43.0


From 13ee655061be37db29725f6fa24c4499e12743be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 12/34] fix: do not fail when no time seems to have passed
 while copying

---
 bmaptools/CLI.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index e486e21..16e0b51 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -561,11 +561,15 @@ def copy_command(args):
         error_out("interrupted, exiting")
 
     copying_time = time.time() - start_time
-    copying_speed = writer.mapped_size // copying_time
-    log.info(
-        "copying time: %s, copying speed %s/sec"
-        % (BmapHelpers.human_time(copying_time), BmapHelpers.human_size(copying_speed))
-    )
+    if copying_time > 0:
+        copying_speed = writer.mapped_size // copying_time
+        log.info(
+            "copying time: %s, copying speed %s/sec"
+            % (
+                BmapHelpers.human_time(copying_time),
+                BmapHelpers.human_size(copying_speed),
+            )
+        )
 
     dest_obj.close()
     if bmap_obj:
-- 
2.43.0


From b790c475c60c3a3d8eabb31a069ef3feae3a9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:39 +0000
Subject: [PATCH 13/34] fix: do not fail when the psplash pipe disappears

---
 bmaptools/BmapCopy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 99e1214..e26a42f 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -314,7 +314,12 @@ class BmapCopy(object):
         a best effort.
         """
 
-        if os.path.exists(path) and stat.S_ISFIFO(os.stat(path).st_mode):
+        try:
+            is_fifo = stat.S_ISFIFO(os.stat(path).st_mode)
+        except OSError:
+            is_fifo = False
+
+        if is_fifo:
             self._psplash_pipe = path
         else:
             _log.warning(
-- 
2.43.0


From febb7b9873060df9179d94e9244a2062d1e14631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:00 +0000
Subject: [PATCH 14/34] fix: do not skip bmap checksum verification when the
 version is damaged

---
 bmaptools/BmapCopy.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index e26a42f..e184244 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -474,6 +474,15 @@ class BmapCopy(object):
             self._cs_type = "sha1"
             self._cs_attrib_name = "sha1"
             self._bmap_cs_attrib_name = "BmapFileSHA1"
+        elif (
+            xml.find("BmapFileChecksum") is not None
+            or xml.find("BmapFileSHA1") is not None
+        ):
+            # Do not skip the verification because of a damaged version number
+            raise Error(
+                "the bmap file '%s' has a checksum, but bmap format version %s "
+                "does not support checksums" % (self._bmap_path, self.bmap_version)
+            )
 
         if self._cs_type:
             try:
-- 
2.43.0


From e0102e16db9e2da12700a8adc19eb99e23a38546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 15/34] fix: do not move the position of a buffered image file
 while looking for holes

---
 bmaptools/Filemap.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bmaptools/Filemap.py b/bmaptools/Filemap.py
index 8511aa9..ee9cf53 100644
--- a/bmaptools/Filemap.py
+++ b/bmaptools/Filemap.py
@@ -183,8 +183,14 @@ def _lseek(file_obj, offset, whence):
     there is no more data or hole starting from 'offset', this function
     returns '-1'.  Otherwise the data or hole position is returned."""
 
+    fileno = file_obj.fileno()
     try:
-        return os.lseek(file_obj.fileno(), offset, whence)
+        # Put the file position back, because 'file_obj' may be a buffered
+        # object, which assumes that nobody else changes the position.
+        pos = os.lseek(fileno, 0, os.SEEK_CUR)
+        result = os.lseek(fileno, offset, whence)
+        os.lseek(fileno, pos, os.SEEK_SET)
+        return result
     except OSError as err:
         # The 'lseek' system call returns the ENXIO if there is no data or
         # hole starting from the specified offset.
-- 
2.43.0


From d99dbbd943e6e9d91a749e10b659fb66fd9615da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 16/34] fix: do not take a short read for the end of the image

Reading from standard input in non-blocking mode may return less data than
requested, or 'None', before the end of the image is reached. The former was
taken for the end of the image, and a truncated copy was reported as a success
when copying without bmap.  Seeking in such a source could end at a wrong
position.
---
 bmaptools/TransRead.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index ca5935f..8d45b00 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -98,6 +98,8 @@ def _fake_seek_forward(file_obj, cur_pos, offset, whence=os.SEEK_SET):
     while to_read > 0:
         chunk_size = min(to_read, 1024 * 1024)
         buf = file_obj.read(chunk_size)
+        if buf is None:
+            raise Error("cannot seek to %d: no data are available yet" % new_pos)
         if not buf:
             break
         to_read -= len(buf)
@@ -736,10 +738,19 @@ class TransRead(object):
         """
 
         read_all = size is None or size < 0
-        buf = self._f_objs[-1].read() if read_all else self._f_objs[-1].read(size)
-        self._pos += len(buf)
-        if read_all or len(buf) < size:
-            self._check_end()
+        buf = b""
+        # Getting less than what was asked for does not mean that there is
+        # nothing more to read, e.g., standard input may be in non-blocking mode.
+        while read_all or len(buf) < size:
+            f_obj = self._f_objs[-1]
+            chunk = f_obj.read() if read_all else f_obj.read(size - len(buf))
+            if chunk is None:
+                raise Error("cannot read '%s': no data are available yet" % self.name)
+            if not chunk:
+                self._check_end()
+                break
+            self._pos += len(chunk)
+            buf = buf + chunk if buf else chunk
 
         return buf
 
-- 
2.43.0


From 6eb62cf3ffd095a003ab54812371aa0d1a01b829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 17/34] fix: render sizes of 1 PiB and more correctly

E.g., 2 PiB was rendered as '2048.0 EiB'.
---
 bmaptools/BmapHelpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bmaptools/BmapHelpers.py b/bmaptools/BmapHelpers.py
index b6fd882..0369732 100644
--- a/bmaptools/BmapHelpers.py
+++ b/bmaptools/BmapHelpers.py
@@ -42,12 +42,12 @@ def human_size(size):
     if size < 512:
         return "%d bytes" % size
 
-    for modifier in ["KiB", "MiB", "GiB", "TiB"]:
+    for modifier in ["KiB", "MiB", "GiB", "TiB", "PiB"]:
         size /= 1024.0
         if size < 1024:
             return "%.1f %s" % (size, modifier)
 
-    return "%.1f %s" % (size, "EiB")
+    return "%.1f %s" % (size / 1024.0, "EiB")
 
 
 def human_time(seconds):
-- 
2.43.0


From 822aa64b6e8f93de8c8b198edc8e72d151192ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 18/34] fix: do not fail to copy when the standard error is
 closed

When the program is started with the standard error or output closed,
'sys.stderr' and 'sys.stdout' are 'None'.
---
 bmaptools/CLI.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 16e0b51..14250b2 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -510,7 +510,9 @@ def copy_command(args):
     if (
         not args.quiet
         and not args.debug
+        and sys.stderr
         and sys.stderr.isatty()
+        and sys.stdout
         and sys.stdout.isatty()
     ):
         writer.set_progress_indicator(sys.stderr, "bmaptool: info: %d%% copied")
-- 
2.43.0


From 6f2cb6fdcd45c61ece6c09f6e176214b5fd8f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 19/34] fix: do not fail to copy when the progress cannot be
 printed

The progress indicator is decoration, and writing to a terminal may fail,
e.g., when it is non-blocking or when it was hung up.
---
 bmaptools/BmapCopy.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index e184244..692f00a 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -530,14 +530,19 @@ class BmapCopy(object):
             # line after each progress update and move the cursor up. As an
             # example, this is useful when the copying is interrupted by an
             # exception - the error message will start form new line.
-            if self._progress_started:
-                # The "move cursor up" escape sequence
-                self._progress_file.write("\033[1A")  # pylint: disable=W1401
-            else:
-                self._progress_started = True
+            try:
+                if self._progress_started:
+                    # The "move cursor up" escape sequence
+                    self._progress_file.write("\033[1A")  # pylint: disable=W1401
+                else:
+                    self._progress_started = True
 
-            self._progress_file.write(progress)
-            self._progress_file.flush()
+                self._progress_file.write(progress)
+                self._progress_file.flush()
+            except IOError as err:
+                # The terminal may be gone or busy, which is no reason to stop
+                # copying
+                _log.debug("cannot update the progress: %s" % err)
 
         # Update psplash progress when configured. This is using a best effort
         # strategy to not affect the writing process when psplash breaks, is
-- 
2.43.0


From 54c876a6c6ebc413bc1f8374220332f4d3f1608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 20/34] fix: do not lose a part of the bmap when the standard
 output is unbuffered

With 'PYTHONUNBUFFERED' set, a partial write to the standard output (e.g.,
because of a full disk) went unnoticed: the bmap was truncated, and the exit
status was 0.
---
 bmaptools/CLI.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 14250b2..8243b82 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -626,7 +626,13 @@ def create_command(args):
 
     if not args.output:
         output.seek(0)
-        sys.stdout.write(output.read())
+        try:
+            # When 'sys.stdout' is unbuffered, its 'write()' method loses data
+            # if the operating system accepts only a part of them
+            with open(sys.stdout.fileno(), "w", closefd=False) as stdout:
+                stdout.write(output.read())
+        except IOError as err:
+            error_out("cannot write to the standard output:\n%s", err)
 
     if creator.mapped_cnt == creator.blocks_cnt:
         log.warning(
-- 
2.43.0


From 09aae82e291be525ec955aab277bed8a45b980ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 21/34] fix: do not mix up the answers of concurrent block map
 queries

All the FIEMAP queries of an object share one buffer. When iterators were
used side by side, one continued with the extents of the other.
---
 bmaptools/Filemap.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bmaptools/Filemap.py b/bmaptools/Filemap.py
index ee9cf53..19681ea 100644
--- a/bmaptools/Filemap.py
+++ b/bmaptools/Filemap.py
@@ -509,10 +509,11 @@ class FilemapFiemap(_FilemapBase):
                 # No more mapped blocks
                 return
 
-            extent = 0
-            while extent < mapped_extents:
-                fiemap_extent = self._unpack_fiemap_extent(extent)
+            # The buffer is shared with other iterators and methods, so take all
+            # the extents out of it before yielding anything
+            extents = [self._unpack_fiemap_extent(i) for i in range(mapped_extents)]
 
+            for fiemap_extent in extents:
                 # Start of the extent
                 extent_start = fiemap_extent[0]
                 # Starting block number of the extent
@@ -533,8 +534,6 @@ class FilemapFiemap(_FilemapBase):
                 last = min(extent_block + extent_count, start + count) - 1
                 yield (first, last)
 
-                extent += 1
-
             block = extent_block + extent_count
 
     def get_mapped_ranges(self, start, count):
-- 
2.43.0


From 9aff31b0e4fa9a296a6ccda2be94ace40712a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 22/34] fix: refuse a block map with a range beyond the end of
 the image

A range which begins or ends after the last block of the image was accepted
when the (compressed or streamed) image happened to have enough data or when
the missing blocks were hidden by a short last block, and was written to the
destination beyond the end declared by the block map.
---
 bmaptools/BmapCopy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 692f00a..ecbf999 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -602,6 +602,11 @@ class BmapCopy(object):
             else:
                 last = first
 
+            if last >= self.blocks_cnt:
+                raise Error(
+                    "bad range (beyond the end of the image): '%s'" % blocks_range
+                )
+
             if self._cs_attrib_name in xml_element.attrib:
                 chksum = xml_element.attrib[self._cs_attrib_name]
             else:
-- 
2.43.0


From a09059f77d88379c6108f3b8dd5b8b31aa87af1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:59 +0000
Subject: [PATCH 23/34] fix: refuse a block map with an empty checksum type

The checksum of the block map itself was silently not verified then.
---
 bmaptools/BmapCopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index ecbf999..4b532f8 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -484,7 +484,7 @@ class BmapCopy(object):
                 "does not support checksums" % (self._bmap_path, self.bmap_version)
             )
 
-        if self._cs_type:
+        if self._cs_type is not None:
             try:
                 self._cs_len = len(hashlib.new(self._cs_type).hexdigest())
             except ValueError as err:
-- 
2.43.0


From 74c5c9c8f93962ff7196072bca508099a75c79c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 24/34] fix: refuse a destination which is one of the input
 files

---
 bmaptools/CLI.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 8243b82..5972898 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -337,6 +337,17 @@ def verify_bmap_signature(args, bmap_obj, bmap_path):
         return verify_detached_bmap_signature(args, bmap_obj, bmap_path)
 
 
+def is_same_file(path1, path2):
+    """
+    Returns 'True' if 'path1' and 'path2' refer to the same existing local file.
+    """
+
+    try:
+        return bool(path1) and os.path.samefile(path1, path2)
+    except OSError:
+        return False
+
+
 def find_and_open_bmap(args):
     """
     This is a helper function for 'open_files()' which discovers and opens the
@@ -433,6 +444,11 @@ def open_files(args):
             "(you specified the same path for them)"
         )
 
+    # Opening the destination file truncates it
+    for path in (args.image, bmap_path, args.bmap_sig):
+        if is_same_file(path, args.dest):
+            error_out("'%s' and the destination '%s' are the same file", path, args.dest)
+
     # If the destination file is under "/dev", but does not exist, print a
     # warning. This is done in order to be more user-friendly, because
     # sometimes users mean to write to a block device, them misspell its name.
@@ -605,6 +621,9 @@ def create_command(args):
     target device.
     """
 
+    if args.output and is_same_file(args.image, args.output):
+        error_out("the image and the output file '%s' are the same file", args.output)
+
     # Create and setup the output stream
     if args.output:
         try:
-- 
2.43.0


From ac1b3b24c99415502ead9830725e288068676796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:17 +0000
Subject: [PATCH 25/34] fix: stop the reader thread of a failed copy before
 copying again

---
 bmaptools/BmapCopy.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 4b532f8..de132cf 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -233,6 +233,8 @@ class BmapCopy(object):
         self._batch_queue = None
         self._batch_bytes = 1024 * 1024
         self._batch_queue_len = 6
+        self._reader_running = False
+        self._reader_stop = False
 
         self.bmap_version = None
         self.bmap_version_major = None
@@ -657,6 +659,10 @@ class BmapCopy(object):
 
                 iterator = self._get_batches(first, last)
                 for (start, end, length) in iterator:
+                    if self._reader_stop:
+                        self._batch_queue.put(None)
+                        return
+
                     try:
                         buf = self._f_image.read(length * self.block_size)
                     except IOError as err:
@@ -712,6 +718,18 @@ class BmapCopy(object):
 
         self._batch_queue.put(None)
 
+    def _stop_reader(self):
+        """
+        If an earlier 'copy()' call failed, its reader thread may still be
+        using the image file. Wait until the thread has finished.
+        """
+
+        self._reader_stop = True
+        while self._reader_running:
+            if self._batch_queue.get() is None:
+                self._reader_running = False
+        self._reader_stop = False
+
     def copy(self, sync=True, verify=True):
         """
         Copy the image to the destination file using bmap. The 'sync' argument
@@ -722,8 +740,10 @@ class BmapCopy(object):
 
         # Create the queue for block batches and start the reader thread, which
         # will read the image in batches and put the results to '_batch_queue'.
+        self._stop_reader()
         self._batch_queue = Queue.Queue(self._batch_queue_len)
         thread.start_new_thread(self._get_data, (verify,))
+        self._reader_running = True
 
         blocks_written = 0
         bytes_written = 0
@@ -747,6 +767,7 @@ class BmapCopy(object):
             batch = self._batch_queue.get()
             if batch is None:
                 # No more data, the image is written
+                self._reader_running = False
                 break
             elif batch[0] == "error":
                 # The reader thread encountered an error and passed us the
-- 
2.43.0


From 1906559cae9546f82a63c245d3b48aa07c9c9637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 26/34] fix: quote the path of the image for the remote shell

---
 bmaptools/TransRead.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 8d45b00..a5118e4 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -30,6 +30,7 @@ import io
 import errno
 import sys
 import logging
+import shlex
 import threading
 import subprocess
 import netrc
@@ -608,6 +609,7 @@ class TransRead(object):
 
         # Test if file exists by running "test -f path && test -r path" on the
         # host
+        path = shlex.quote(path)
         command = "test -f " + path + " && test -r " + path
         child_process = subprocess.Popen(popen_args + [command], bufsize=1024 * 1024)
         child_process.wait()
-- 
2.43.0


From e2b5b8a2dba415b41b8c9bad27a08555bb4d47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 27/34] fix: honour the port and the relative path of ssh URLs

---
 bmaptools/TransRead.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index a5118e4..11ab67c 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -544,8 +544,8 @@ class TransRead(object):
     def _open_url_ssh(self, parsed_url):
         """
         This function opens a file on a remote host using SSH. The URL has to
-        have this format: "ssh://username@hostname:path". Currently we only
-        support password-based authentication.
+        have this format: "ssh://username@hostname:path", where 'path' is
+        relative to the home directory, or "ssh://username@hostname:port/path".
         """
 
         username = parsed_url.username
@@ -555,6 +555,15 @@ class TransRead(object):
         if username:
             hostname = username + "@" + hostname
 
+        # What follows the host name is either the port number or the beginning
+        # of the path
+        port_args = []
+        tail = parsed_url.netloc.rpartition("@")[2].rpartition("]")[2].partition(":")[2]
+        if tail.isdigit():
+            port_args = ["-p", tail]
+        else:
+            path = tail + path
+
         # Make sure the ssh client program is installed
         if not BmapHelpers.program_is_available("ssh"):
             raise Error(
@@ -575,7 +584,6 @@ class TransRead(object):
                 "-o ForwardX11=no",
                 "-o PubkeyAuthentication=no",
                 "-o PasswordAuthentication=yes",
-                hostname,
             ]
 
             # Make sure the sshpass program is installed
@@ -593,8 +601,8 @@ class TransRead(object):
                 "-o PubkeyAuthentication=yes",
                 "-o PasswordAuthentication=no",
                 "-o BatchMode=yes",
-                hostname,
             ]
+        popen_args += port_args + [hostname]
 
         # Test if we can successfully connect
         child_process = subprocess.Popen(popen_args + ["true"])
-- 
2.43.0


From 0877f29636a40232001b90657d99162113686f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:56 +0000
Subject: [PATCH 28/34] fix: show the broken line of a block map which is not
 proper XML

---
 bmaptools/BmapCopy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index de132cf..79ba901 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -411,9 +411,11 @@ class BmapCopy(object):
             # Extrace the erroneous line with some context
             self._f_bmap.seek(0)
             xml_extract = ""
-            for num, line in enumerate(self._f_bmap):
+            for num, line in enumerate(self._f_bmap.read().splitlines(), 1):
                 if num >= err.position[0] - 4 and num <= err.position[0] + 4:
-                    xml_extract += "Line %d: %s" % (num, line)
+                    if isinstance(line, bytes):
+                        line = line.decode("utf-8", "replace")
+                    xml_extract += "Line %d: %s\n" % (num, line)
 
             raise Error(
                 "cannot parse the bmap file '%s' which should be a "
-- 
2.43.0


From f80b836363894e71a5a978d3218f737296d0fd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:45 +0000
Subject: [PATCH 29/34] fix: report an unsupported block map version as such

---
 bmaptools/BmapCopy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 79ba901..4a1c96c 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -431,7 +431,7 @@ class BmapCopy(object):
         self.bmap_version_minor = int(self.bmap_version.split(".", 1)[1])
         if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]):
             raise Error(
-                "only bmap format version up to %d is supported, "
+                "only bmap format version up to %s is supported, "
                 "version %d is not supported"
                 % (SUPPORTED_BMAP_VERSION, self.bmap_version_major)
             )
-- 
2.43.0


From f90eacaa1f9d5b9da7becd8d9035dd0bff034044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 30/34] fix: report missing and malformed fields of a block map
 as such

---
 bmaptools/BmapCopy.py | 87 +++++++++++++++++++++++++++++++++----------
 1 file changed, 68 insertions(+), 19 deletions(-)

diff --git a/bmaptools/BmapCopy.py b/bmaptools/BmapCopy.py
index 4a1c96c..58d27b1 100644
--- a/bmaptools/BmapCopy.py
+++ b/bmaptools/BmapCopy.py
@@ -375,7 +375,7 @@ class BmapCopy(object):
 
         import mmap
 
-        correct_chksum = self._xml.find(self._bmap_cs_attrib_name).text.strip()
+        correct_chksum = self._get_text(self._bmap_cs_attrib_name)
 
         # Before verifying the shecksum, we have to substitute the checksum
         # value stored in the file with all zeroes. For these purposes we
@@ -383,7 +383,11 @@ class BmapCopy(object):
         mapped_bmap = mmap.mmap(self._f_bmap.fileno(), 0, access=mmap.ACCESS_COPY)
 
         chksum_pos = mapped_bmap.find(correct_chksum.encode())
-        assert chksum_pos != -1
+        if chksum_pos == -1:
+            raise Error(
+                "cannot find the checksum '%s' in the bmap file '%s'"
+                % (correct_chksum, self._bmap_path)
+            )
 
         mapped_bmap[chksum_pos : chksum_pos + self._cs_len] = b"0" * self._cs_len
 
@@ -400,6 +404,32 @@ class BmapCopy(object):
                 % (self._bmap_path, calculated_chksum, correct_chksum)
             )
 
+    def _get_text(self, name):
+        """
+        Return the text of the bmap XML file element 'name'.
+        """
+
+        element = self._xml.find(name)
+        if element is None or not (element.text or "").strip():
+            raise Error(
+                "the bmap file '%s' has no '%s' element" % (self._bmap_path, name)
+            )
+        return element.text.strip()
+
+    def _get_number(self, name):
+        """
+        Return the number in the bmap XML file element 'name'.
+        """
+
+        text = self._get_text(name)
+        try:
+            return int(text)
+        except ValueError:
+            raise Error(
+                "the bmap file '%s' has a bad '%s' element: '%s'"
+                % (self._bmap_path, name, text)
+            )
+
     def _parse_bmap(self):
         """
         Parse the bmap file and initialize corresponding class instance attributs.
@@ -427,8 +457,14 @@ class BmapCopy(object):
         self.bmap_version = str(xml.getroot().attrib.get("version"))
 
         # Make sure we support this version
-        self.bmap_version_major = int(self.bmap_version.split(".", 1)[0])
-        self.bmap_version_minor = int(self.bmap_version.split(".", 1)[1])
+        try:
+            self.bmap_version_major = int(self.bmap_version.split(".", 1)[0])
+            self.bmap_version_minor = int(self.bmap_version.split(".", 1)[1])
+        except (ValueError, IndexError):
+            raise Error(
+                "the bmap file '%s' has a bad version number: '%s'"
+                % (self._bmap_path, self.bmap_version)
+            )
         if self.bmap_version_major > int(SUPPORTED_BMAP_VERSION.split(".", 1)[0]):
             raise Error(
                 "only bmap format version up to %s is supported, "
@@ -437,10 +473,16 @@ class BmapCopy(object):
             )
 
         # Fetch interesting data from the bmap XML file
-        self.block_size = int(xml.find("BlockSize").text.strip())
-        self.blocks_cnt = int(xml.find("BlocksCount").text.strip())
-        self.mapped_cnt = int(xml.find("MappedBlocksCount").text.strip())
-        self.image_size = int(xml.find("ImageSize").text.strip())
+        self.block_size = self._get_number("BlockSize")
+        self.blocks_cnt = self._get_number("BlocksCount")
+        self.mapped_cnt = self._get_number("MappedBlocksCount")
+        self.image_size = self._get_number("ImageSize")
+        if self.block_size <= 0 or self.blocks_cnt <= 0:
+            raise Error(
+                "Inconsistent bmap - bad block size or blocks count "
+                "(%d blocks * %d bytes)" % (self.blocks_cnt, self.block_size)
+            )
+
         self.image_size_human = human_size(self.image_size)
         self.mapped_size = self.mapped_cnt * self.block_size
         self.mapped_size_human = human_size(self.mapped_size)
@@ -471,7 +513,7 @@ class BmapCopy(object):
             # 1.4 became version 2.0. So 1.4 and 2.0 formats are identical.
             #
             # Note, bmap files did not contain checksums prior to version 1.3.
-            self._cs_type = xml.find("ChecksumType").text.strip()
+            self._cs_type = self._get_text("ChecksumType")
             self._cs_attrib_name = "chksum"
             self._bmap_cs_attrib_name = "BmapFileChecksum"
         elif self.bmap_version_minor == 3:
@@ -491,7 +533,7 @@ class BmapCopy(object):
         if self._cs_type is not None:
             try:
                 self._cs_len = len(hashlib.new(self._cs_type).hexdigest())
-            except ValueError as err:
+            except (ValueError, TypeError) as err:
                 raise Error(
                     'cannot initialize hash function "%s": %s' % (self._cs_type, err)
                 )
@@ -505,7 +547,11 @@ class BmapCopy(object):
         """
 
         if self.mapped_cnt:
-            assert blocks_written <= self.mapped_cnt
+            if blocks_written > self.mapped_cnt:
+                raise Error(
+                    "wrote %d blocks, but only %d blocks should be mapped"
+                    % (blocks_written, self.mapped_cnt)
+                )
             percent = int((float(blocks_written) / self.mapped_cnt) * 100)
             _log.debug(
                 "wrote %d blocks out of %d (%d%%)"
@@ -590,21 +636,24 @@ class BmapCopy(object):
         # We have the bmap, just read it and yield block ranges
         xml = self._xml
         xml_bmap = xml.find("BlockMap")
+        if xml_bmap is None:
+            raise Error("the bmap file '%s' has no block map" % self._bmap_path)
 
         for xml_element in xml_bmap.findall("Range"):
-            blocks_range = xml_element.text.strip()
+            blocks_range = (xml_element.text or "").strip()
             # The range of blocks has the "X - Y" format, or it can be just "X"
             # in old bmap format versions. First, split the blocks range string
             # and strip white-spaces.
             split = [x.strip() for x in blocks_range.split("-", 1)]
 
-            first = int(split[0])
-            if len(split) > 1:
-                last = int(split[1])
-                if first > last:
-                    raise Error("bad range (first > last): '%s'" % blocks_range)
-            else:
-                last = first
+            try:
+                first = int(split[0])
+                last = int(split[-1])
+            except ValueError:
+                raise Error("bad range (not a number): '%s'" % blocks_range)
+
+            if first > last:
+                raise Error("bad range (first > last): '%s'" % blocks_range)
 
             if last >= self.blocks_cnt:
                 raise Error(
-- 
2.43.0


From a778b23c4de035d51741cdc22cd0d8b463993251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 31/34] fix: report the status of a signature which is not
 valid

---
 bmaptools/CLI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bmaptools/CLI.py b/bmaptools/CLI.py
index 5972898..a884e77 100644
--- a/bmaptools/CLI.py
+++ b/bmaptools/CLI.py
@@ -147,11 +147,11 @@ def report_verification_results(context, sigs):
             )
         else:
             error_out(
-                "signature verification failed (fingerprint %s): %s\n"
+                "signature verification failed (fingerprint %s): status %s\n"
                 "Either fix the problem or use --no-sig-verify to "
                 "disable signature verification",
                 sig.fpr,
-                sig.status[2].lower(),
+                sig.status,
             )
 
 
-- 
2.43.0


From f8809d3a29925b6e7a4e28cae86873593379bc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 32/34] fix: check for the sshpass program instead of ssh a
 second time

---
 bmaptools/TransRead.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 11ab67c..b9d05d3 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -587,7 +587,7 @@ class TransRead(object):
             ]
 
             # Make sure the sshpass program is installed
-            if not BmapHelpers.program_is_available("ssh"):
+            if not BmapHelpers.program_is_available("sshpass"):
                 raise Error(
                     'the "sshpass" program is not available but it '
                     "is required for password-based SSH authentication"
-- 
2.43.0


From f7ee9faa1292e357fb68d417559e6363c43c7bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 33/34] fix: do not fail because of an unreadable netrc file

---
 bmaptools/TransRead.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index b9d05d3..712af57 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -682,6 +682,8 @@ class TransRead(object):
                     password = auth[2]
             except FileNotFoundError:
                 pass
+            except (OSError, UnicodeDecodeError) as err:
+                _log.error("cannot read the netrc file: %s" % err)
             except netrc.NetrcParseError as e:
                 _log.error(f"Error parsing line {e.lineno} of {e.filename}: {e.msg}")
 
-- 
2.43.0


From 0e56712e66b0a586b54c121f5bad0d3105e57c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 34/34] fix: decode percent-encoded credentials of URLs

---
 bmaptools/TransRead.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bmaptools/TransRead.py b/bmaptools/TransRead.py
index 712af57..65ec73f 100644
--- a/bmaptools/TransRead.py
+++ b/bmaptools/TransRead.py
@@ -548,8 +548,8 @@ class TransRead(object):
         relative to the home directory, or "ssh://username@hostname:port/path".
         """
 
-        username = parsed_url.username
-        password = parsed_url.password
+        username = urlparse.unquote(parsed_url.username or "")
+        password = urlparse.unquote(parsed_url.password or "")
         path = parsed_url.path
         hostname = parsed_url.hostname
         if username:
@@ -670,8 +670,8 @@ class TransRead(object):
             self._open_url_ssh(parsed_url)
             return
 
-        username = parsed_url.username
-        password = parsed_url.password
+        username = urlparse.unquote(parsed_url.username or "")
+        password = urlparse.unquote(parsed_url.password or "")
 
         if not username and not password and parsed_url.scheme in ("http", "https"):
             try:
-- 
2.43.0

