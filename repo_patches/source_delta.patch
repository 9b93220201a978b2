From 7bba6afc45d0b940f2df27ee61651c47ee46a28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:01 +0000
Subject: [PATCH 01/16] fix: info reports a failure to write its output

The response has no trailing newline, so it stayed in the stdout buffer until
exit, where write errors are ignored: a full disk or closed pipe gave an empty
output and exit status 0.
---
 src/cli.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 0db90b3..ec98467 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -224,7 +224,9 @@ impl Command {
                     },
                 )?;
                 let response = request.process(&device)?;
-                print!("{response}")
+                print!("{response}");
+                // no newline: without an explicit flush a write error would go unnoticed at exit
+                std::io::stdout().flush()?;
             }
         }
         Ok(())
-- 
2.43.0


From 6453bc050dc89c0086113f3ba5208e686a29ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 02/16] fix: include cycles are reported instead of overflowing
 the stack

A YAML file that includes itself, directly or through others, made patch,
expand-patch and makedeps recurse until the stack was exhausted.
---
 src/patch/mod.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index f7e5fe4..104438d 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -166,6 +166,11 @@ fn abspath(frompath: &Path, relpath: &Path) -> Result<PathBuf, std::io::Error> {
 
 /// Recursively loads any included YAML files.
 pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
+    yaml_includes_from(parent, &mut Vec::new())
+}
+
+/// `ancestors` are the files whose `_include` rules led to `parent`
+fn yaml_includes_from(parent: &mut Hash, ancestors: &mut Vec<PathBuf>) -> Result<Vec<PathBuf>> {
     let y_path = "_path".to_yaml();
     let mut included = vec![];
     let self_path = PathBuf::from(parent.get(&y_path).unwrap().str()?);
@@ -177,7 +182,7 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
                 Yaml::Hash(val) if val.contains_key(&"_include".to_yaml()) => {
                     let ypath = self_path.to_str().unwrap().to_yaml();
                     val.insert(y_path.clone(), ypath.clone());
-                    included.extend(yaml_includes(val)?);
+                    included.extend(yaml_includes_from(val, ancestors)?);
                 }
                 _ => {}
             }
@@ -195,6 +200,11 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         if included.contains(&path) {
             continue;
         }
+        if ancestors.contains(&path) {
+            return Err(anyhow!(
+                "File \"{relpath}\" included from file {self_path:?} includes itself"
+            ));
+        }
         let f = File::open(&path)?;
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
@@ -208,7 +218,9 @@ pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
         included.push(path.clone());
 
         // Process any top-level includes in child
-        included.extend(yaml_includes(child)?);
+        ancestors.push(path);
+        included.extend(yaml_includes_from(child, ancestors)?);
+        ancestors.pop();
         update_dict(parent, child)?;
     }
     parent.remove(&"_include".to_yaml());
-- 
2.43.0


From 631eaeb0cdaae881dcad88633766615c876236d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 03/16] fix: makedeps lists included files that are empty

patch opens an included file even if it holds no YAML document, so its result
depends on it; the dependency rule left it out and later edits went unnoticed.
---
 src/patch/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 104438d..948eda5 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -209,13 +209,13 @@ fn yaml_includes_from(parent: &mut Hash, ancestors: &mut Vec<PathBuf>) -> Result
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
         let mut docs = YamlLoader::load_from_str(&contents)?;
+        included.push(path.clone());
         if docs.is_empty() {
             continue;
         }
         let child = docs[0].hash_mut()?;
         let ypath = path.to_str().unwrap().to_yaml();
         child.insert(y_path.clone(), ypath.clone());
-        included.push(path.clone());
 
         // Process any top-level includes in child
         ancestors.push(path);
-- 
2.43.0


From fa462af864ca347e32e15f271ba6e17a830ec736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 04/16] fix: html regenerates a page as old as its SVD

Times are compared in whole seconds: an SVD edited within the second in which
its page was written kept the stale page for ever.
---
 src/html/html_cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 970bd79..9f7b445 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -534,7 +534,7 @@ fn generate_if_newer(
         i64::MIN
     };
 
-    if !filename.is_file() || file_mtime < device.get_i64("last-modified").unwrap() {
+    if !filename.is_file() || file_mtime <= device.get_i64("last-modified").unwrap() {
         println!("Generating {pagename}");
         let svdfile = device.get_str("svdfile").unwrap();
         let svdfile = Path::new(svdfile.as_ref());
-- 
2.43.0


From e9ded3c3dd6c047df1a1ff07ad445871b1ef923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 05/16] fix: html reports inputs it cannot examine instead of
 skipping them

Any error while looking at an input (I/O error, permission denied) was taken
for 'not a file': the device went missing from the index with exit status 0.
---
 src/html/html_cli.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 9f7b445..e244177 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -548,7 +548,16 @@ fn generate_if_newer(
 }
 
 pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
-    let svdfiles = svdfiles.iter().filter(|&f| f.is_file()).collect::<Vec<_>>();
+    let mut files = Vec::new();
+    for f in svdfiles {
+        match std::fs::metadata(f) {
+            Ok(m) if m.is_file() => files.push(f),
+            Ok(_) => {}
+            Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+            Err(e) => return Err(e).with_context(|| format!("In file {f:?}")),
+        }
+    }
+    let svdfiles = files;
 
     if !htmldir.exists() {
         std::fs::create_dir(htmldir)?;
-- 
2.43.0


From 93725bac1a94339c955bb4ff104287d5a56bc059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 06/16] fix: html tolerates that its output directory appears
 meanwhile

Two html processes started together on a new directory: the slower one failed
with 'File exists'.
---
 src/html/html_cli.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index e244177..c878502 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -560,7 +560,11 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
     let svdfiles = files;
 
     if !htmldir.exists() {
-        std::fs::create_dir(htmldir)?;
+        match std::fs::create_dir(htmldir) {
+            // another process was faster
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists && htmldir.is_dir() => {}
+            r => r?,
+        }
     }
     let template_file = include_str!("template.html");
     let template = liquid::ParserBuilder::with_stdlib()
-- 
2.43.0


From 3c444300d06dced4fd954641837222462e282354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:03 +0000
Subject: [PATCH 07/16] fix: html never writes a page outside its output
 directory

The page is named after the device, and a device name may contain anything:
a name with path separators made html create or overwrite other files.
---
 src/html/html_cli.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index c878502..c4da56c 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -518,6 +518,9 @@ fn generate_if_newer(
     htmldir: &Path,
 ) -> anyhow::Result<()> {
     let pagename = format!("{}.html", device.get_str("name").unwrap());
+    if Path::new(&pagename).file_name() != Some(pagename.as_ref()) {
+        return Err(anyhow!("Device name is not usable as page name: {pagename:?}"));
+    }
     let filename = htmldir.join(&pagename);
 
     #[cfg(not(target_os = "windows"))]
-- 
2.43.0


From 53d96546851e85571a3dc1359394f10d4348195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:30 +0000
Subject: [PATCH 08/16] fix: html publishes whole files only, the page after
 the copy

Pages, SVD copies and the index were written in place. A run that was killed or
failed half way left a truncated page whose time stamp made every later run
skip it, or a page without its SVD copy; threads and processes writing the same
file mixed their output.
---
 src/html/html_cli.rs | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index c4da56c..f63f605 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -512,6 +512,30 @@ fn process_svd(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
     parse_device(svdfile).with_context(|| format!("In file {svdfile}"))
 }
 
+/// Writes a file under a temporary name and moves it to `path` when it is complete, so that
+/// no failure, kill or concurrent run leaves a truncated or mixed file that looks up to date.
+fn publish(
+    path: &Path,
+    write: impl FnOnce(&mut File, &Path) -> anyhow::Result<()>,
+) -> anyhow::Result<()> {
+    use std::sync::atomic::{AtomicUsize, Ordering};
+    static COUNTER: AtomicUsize = AtomicUsize::new(0);
+
+    let (mut file, temp) = loop {
+        let n = COUNTER.fetch_add(1, Ordering::Relaxed);
+        let temp = path.with_file_name(format!(".svdtools-{}-{n}.tmp", std::process::id()));
+        match File::options().write(true).create_new(true).open(&temp) {
+            Err(e) if e.kind() == std::io::ErrorKind::AlreadyExists => continue,
+            file => break (file?, temp),
+        }
+    };
+    let result = write(&mut file, &temp).and_then(|()| Ok(std::fs::rename(&temp, path)?));
+    if result.is_err() {
+        let _ = std::fs::remove_file(&temp);
+    }
+    result
+}
+
 fn generate_if_newer(
     template: &liquid::Template,
     device: &Object,
@@ -542,9 +566,14 @@ fn generate_if_newer(
         let svdfile = device.get_str("svdfile").unwrap();
         let svdfile = Path::new(svdfile.as_ref());
         let svdfile_name = svdfile.file_name().unwrap();
-        let mut file = std::fs::File::create(filename)?;
-        generate_device_page(template, device, &mut file)?;
-        std::fs::copy(svdfile, htmldir.join(svdfile_name))?;
+        // The copy comes first: once the page is there, nothing is left to do.
+        publish(&htmldir.join(svdfile_name), |_, temp| {
+            std::fs::copy(svdfile, temp)?;
+            Ok(())
+        })?;
+        publish(&filename, |file, _| {
+            generate_device_page(template, device, file)
+        })?;
     }
 
     Ok(())
@@ -590,9 +619,9 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
         .collect::<Vec<_>>();
     devices.sort_by_key(|d| d.get_str("name").map(|s| s.to_lowercase()));
 
-    let mut file = std::fs::File::create(htmldir.join("index.html"))?;
-    generate_index_page(&devices, &mut file)?;
-    Ok(())
+    publish(&htmldir.join("index.html"), |file, _| {
+        generate_index_page(&devices, file)
+    })
 }
 
 fn enums_to_map(evs: &EnumeratedValues) -> BTreeMap<u64, &EnumeratedValue> {
-- 
2.43.0


From 7a5301b857de41c216632a30164f56c191fb23c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:11 +0000
Subject: [PATCH 09/16] fix: html never overwrites its inputs

With an output directory that contains an input, the SVD was copied onto itself
(which truncates it) or over another input of the same name.
---
 src/html/html_cli.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index f63f605..5a9e29c 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -512,15 +512,29 @@ fn process_svd(svdfile: impl AsRef<Path>) -> anyhow::Result<Object> {
     parse_device(svdfile).with_context(|| format!("In file {svdfile}"))
 }
 
+/// Real path of a file, if there is one
+fn existing(path: &Path) -> std::io::Result<Option<PathBuf>> {
+    match path.canonicalize() {
+        Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        p => p.map(Some),
+    }
+}
+
 /// Writes a file under a temporary name and moves it to `path` when it is complete, so that
 /// no failure, kill or concurrent run leaves a truncated or mixed file that looks up to date.
+///
+/// Never replaces one of the `inputs`, which may be in the output directory.
 fn publish(
+    inputs: &[PathBuf],
     path: &Path,
     write: impl FnOnce(&mut File, &Path) -> anyhow::Result<()>,
 ) -> anyhow::Result<()> {
     use std::sync::atomic::{AtomicUsize, Ordering};
     static COUNTER: AtomicUsize = AtomicUsize::new(0);
 
+    if existing(path)?.is_some_and(|p| inputs.contains(&p)) {
+        return Err(anyhow!("Output would overwrite the input file {path:?}"));
+    }
     let (mut file, temp) = loop {
         let n = COUNTER.fetch_add(1, Ordering::Relaxed);
         let temp = path.with_file_name(format!(".svdtools-{}-{n}.tmp", std::process::id()));
@@ -540,10 +554,13 @@ fn generate_if_newer(
     template: &liquid::Template,
     device: &Object,
     htmldir: &Path,
+    inputs: &[PathBuf],
 ) -> anyhow::Result<()> {
     let pagename = format!("{}.html", device.get_str("name").unwrap());
     if Path::new(&pagename).file_name() != Some(pagename.as_ref()) {
-        return Err(anyhow!("Device name is not usable as page name: {pagename:?}"));
+        return Err(anyhow!(
+            "Device name is not usable as page name: {pagename:?}"
+        ));
     }
     let filename = htmldir.join(&pagename);
 
@@ -567,11 +584,14 @@ fn generate_if_newer(
         let svdfile = Path::new(svdfile.as_ref());
         let svdfile_name = svdfile.file_name().unwrap();
         // The copy comes first: once the page is there, nothing is left to do.
-        publish(&htmldir.join(svdfile_name), |_, temp| {
-            std::fs::copy(svdfile, temp)?;
-            Ok(())
-        })?;
-        publish(&filename, |file, _| {
+        let copy = htmldir.join(svdfile_name);
+        if existing(&copy)? != Some(svdfile.canonicalize()?) {
+            publish(inputs, &copy, |_, temp| {
+                std::fs::copy(svdfile, temp)?;
+                Ok(())
+            })?;
+        }
+        publish(inputs, &filename, |file, _| {
             generate_device_page(template, device, file)
         })?;
     }
@@ -590,6 +610,10 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
         }
     }
     let svdfiles = files;
+    let inputs = svdfiles
+        .iter()
+        .map(|f| f.canonicalize())
+        .collect::<Result<Vec<_>, _>>()?;
 
     if !htmldir.exists() {
         match std::fs::create_dir(htmldir) {
@@ -608,7 +632,7 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
         .par_iter()
         .map(|f| {
             let device = process_svd(f).unwrap();
-            generate_if_newer(&template, &device, htmldir).unwrap();
+            generate_if_newer(&template, &device, htmldir, &inputs).unwrap();
             object!({
                 "name": device.get("name"),
                 "progress": device.get("progress"),
@@ -619,7 +643,7 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
         .collect::<Vec<_>>();
     devices.sort_by_key(|d| d.get_str("name").map(|s| s.to_lowercase()));
 
-    publish(&htmldir.join("index.html"), |file, _| {
+    publish(&inputs, &htmldir.join("index.html"), |file, _| {
         generate_index_page(&devices, file)
     })
 }
-- 
2.43.0


From 2d6a96e2ee7a7abf253670dc2a54ff29129d27ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 10/16] fix: htmlcompare never writes a page outside its output
 directory

Pages are named after peripherals and registers; a name with path separators
made htmlcompare create or overwrite other files.
---
 src/html/htmlcompare_cli.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/html/htmlcompare_cli.rs b/src/html/htmlcompare_cli.rs
index 1979d7f..e4a7a39 100644
--- a/src/html/htmlcompare_cli.rs
+++ b/src/html/htmlcompare_cli.rs
@@ -1,4 +1,4 @@
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use std::{
     collections::{BTreeMap, HashMap},
     fs::File,
@@ -244,6 +244,13 @@ pub fn htmlcompare(htmldir: &Path, svdfiles: &[PathBuf]) -> Result<()> {
         .map(|p| parse(p))
         .collect::<Result<Vec<_>>>()?;
     let files = html_tables(&parts);
+    // Files are named after peripherals and registers, which may contain anything
+    if let Some(f) = files
+        .keys()
+        .find(|f| Path::new(f).file_name() != Some(f.as_ref()))
+    {
+        return Err(anyhow!("Name is not usable as file name: {f:?}"));
+    }
     std::fs::create_dir_all(htmldir)?;
     for file in files {
         let f = htmldir.join(file.0);
-- 
2.43.0


From fa8efe1b64ce13a66122fa788c068ace834a1e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 11/16] fix: html refuses a copy onto an input before it starts

---
 src/html/html_cli.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/html/html_cli.rs b/src/html/html_cli.rs
index 5a9e29c..e0c3e78 100644
--- a/src/html/html_cli.rs
+++ b/src/html/html_cli.rs
@@ -614,6 +614,14 @@ pub fn svd2html(htmldir: &Path, svdfiles: &[PathBuf]) -> anyhow::Result<()> {
         .iter()
         .map(|f| f.canonicalize())
         .collect::<Result<Vec<_>, _>>()?;
+    for (svdfile, input) in svdfiles.iter().zip(&inputs) {
+        let copy = htmldir.join(svdfile.file_name().unwrap());
+        if existing(&copy)?.is_some_and(|c| c != *input && inputs.contains(&c)) {
+            return Err(anyhow!(
+                "Copy of {svdfile:?} would overwrite the input file {copy:?}"
+            ));
+        }
+    }
 
     if !htmldir.exists() {
         match std::fs::create_dir(htmldir) {
-- 
2.43.0


From 75c132d1d9dc26812405ce013ee62a0937c4d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 12/16] fix: interrupts accepts a byte order mark however the
 file's first bytes are read

---
 src/interrupts/svd_reader.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/interrupts/svd_reader.rs b/src/interrupts/svd_reader.rs
index 45a98cf..d94016e 100644
--- a/src/interrupts/svd_reader.rs
+++ b/src/interrupts/svd_reader.rs
@@ -1,6 +1,6 @@
 use quick_xml::de;
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::Read;
 
 #[derive(Deserialize, Debug)]
 struct Svd {
@@ -33,9 +33,11 @@ pub struct Peripheral {
 }
 
 /// get all peripherals that contain at least one interrupt
-pub fn peripherals_with_interrupts<R: Read>(svd: R) -> impl Iterator<Item = Peripheral> {
-    let reader = BufReader::new(svd);
-    let svd: Svd = de::from_reader(reader).expect("svd not formatted correctly");
+pub fn peripherals_with_interrupts<R: Read>(mut svd: R) -> impl Iterator<Item = Peripheral> {
+    // the parser only recognises a byte order mark that its first read returns completely
+    let mut content = Vec::new();
+    svd.read_to_end(&mut content).expect("svd not readable");
+    let svd: Svd = de::from_reader(content.as_slice()).expect("svd not formatted correctly");
 
     let peripheral_list = svd.peripherals.peripheral;
 
-- 
2.43.0


From 5b4f13fda2363f6407606228f3c49f3b4a271fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 13/16] fix: makedeps refuses paths it cannot write before it
 replaces the old rule

---
 src/makedeps/makedeps_cli.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/makedeps/makedeps_cli.rs b/src/makedeps/makedeps_cli.rs
index 92906a1..a8911a7 100644
--- a/src/makedeps/makedeps_cli.rs
+++ b/src/makedeps/makedeps_cli.rs
@@ -44,6 +44,13 @@ pub fn makedeps(yaml_file: &Path, deps_file: &Path) -> Result<()> {
 
             let deps = yaml_includes(root)?;
 
+            // The rule holds text only: refuse other names before an earlier rule is lost
+            for path in deps.iter().map(|d| d.as_path()).chain([deps_file]) {
+                if path.to_str().is_none() {
+                    return Err(anyhow!("Path is not valid UTF-8: {path:?}"));
+                }
+            }
+
             write_file(deps_file, deps)?;
             Ok(())
         }
-- 
2.43.0


From 9bf82c74dc94f970c4c1438651108bfc11b36d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:45 +0000
Subject: [PATCH 14/16] fix: includes nested too deeply are reported instead of
 overflowing the stack

---
 src/patch/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/patch/mod.rs b/src/patch/mod.rs
index 948eda5..a58bbf6 100644
--- a/src/patch/mod.rs
+++ b/src/patch/mod.rs
@@ -164,6 +164,9 @@ fn abspath(frompath: &Path, relpath: &Path) -> Result<PathBuf, std::io::Error> {
         .map(|b| b.as_path().into())
 }
 
+/// Includes nested deeper than this are refused before they exhaust the stack.
+const MAX_INCLUDE_DEPTH: usize = 128;
+
 /// Recursively loads any included YAML files.
 pub fn yaml_includes(parent: &mut Hash) -> Result<Vec<PathBuf>> {
     yaml_includes_from(parent, &mut Vec::new())
@@ -205,6 +208,11 @@ fn yaml_includes_from(parent: &mut Hash, ancestors: &mut Vec<PathBuf>) -> Result
                 "File \"{relpath}\" included from file {self_path:?} includes itself"
             ));
         }
+        if ancestors.len() >= MAX_INCLUDE_DEPTH {
+            return Err(anyhow!(
+                "File \"{relpath}\" included from file {self_path:?} is nested too deeply"
+            ));
+        }
         let f = File::open(&path)?;
         let mut contents = String::new();
         (&f).read_to_string(&mut contents)?;
-- 
2.43.0


From 8fe077f0116b14e28cd1eca0a5f41057067a5ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 15/16] fix: python: read the root YAML and write the
 dependency file as UTF-8 in any locale

svd patch failed on a root file with text beyond ASCII when the locale is not UTF-8, although it
reads included files as UTF-8, and makedeps wrote names in the encoding of the locale.
---
 svdtools/makedeps.py | 2 +-
 svdtools/patch.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/makedeps.py b/svdtools/makedeps.py
index a6feae5..76faec6 100644
--- a/svdtools/makedeps.py
+++ b/svdtools/makedeps.py
@@ -14,5 +14,5 @@ def main(yaml_file, deps_file):
         device = yaml.safe_load(f)
     device["_path"] = yaml_file
     deps = patch.yaml_includes(device)
-    with open(deps_file, "w") as f:
+    with open(deps_file, "w", encoding="utf-8") as f:
         f.write("{}: {}\n".format(deps_file, " ".join(deps)))
diff --git a/svdtools/patch.py b/svdtools/patch.py
index d961c85..9ef1373 100644
--- a/svdtools/patch.py
+++ b/svdtools/patch.py
@@ -1851,7 +1851,7 @@ def process_device(svd, device, update_fields=True):
 
 def main(yaml_file: Path):
     # Load the specified YAML root file
-    with open(yaml_file) as f:
+    with open(yaml_file, encoding="utf-8") as f:
         root = yaml.safe_load(f)
         root["_path"] = yaml_file
 
-- 
2.43.0


From 6995af425540aa4cdbb2f2afabfc8d5fdd125f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 16/16] fix: python: mmap and interrupts report a listing that
 could not be written

Listings between one buffer and 8 KiB were written by the interpreter after the script had ended,
where it ignores errors: on a full disk they were lost with exit status 0.
---
 svdtools/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svdtools/cli.py b/svdtools/cli.py
index 195c47b..c8bb7f4 100644
--- a/svdtools/cli.py
+++ b/svdtools/cli.py
@@ -33,14 +33,14 @@ def makedeps(yaml_file, deps_file):
 )
 def interrupts(svd_file, gaps):
     """Print list of all interrupts described by an SVD file."""
-    print(svdtools.interrupts.main(svd_file, gaps))
+    print(svdtools.interrupts.main(svd_file, gaps), flush=True)
 
 
 @click.command()
 @click.argument("svd-file")
 def mmap(svd_file):
     """Generate text-based memory map of an SVD file."""
-    print(svdtools.mmap.main(svd_file))
+    print(svdtools.mmap.main(svd_file), flush=True)
 
 
 @click.command()
-- 
2.43.0

