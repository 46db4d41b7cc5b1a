From ba1a5017c9b0c5713134148525ca16fce8b13f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 01/33] fix: don't panic on a link to a URL with an empty label

'[[[https://example.com/|]]]' requested the page title of a URL.
---
 src/render/handle.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/render/handle.rs b/src/render/handle.rs
index 747bdc2..1326f4b 100644
--- a/src/render/handle.rs
+++ b/src/render/handle.rs
@@ -111,9 +111,8 @@ impl Handle {
                 LinkLocation::Page(page_ref) => page_ref.page(),
             },
             LinkLabel::Page => match link {
-                LinkLocation::Url(_) => {
-                    panic!("Requested link label of page for a URL");
-                }
+                // URLs don't have a page title, so display the URL itself.
+                LinkLocation::Url(url) => url.as_ref(),
                 LinkLocation::Page(page_ref) => {
                     let (site, page) = page_ref.fields_or(site);
                     page_title = match self.get_page_title(site, page) {
-- 
2.43.0


From 3298afdec6697114fac1574b7f23a8e8dc0f4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 02/33] fix: prevent CSS from closing its <style> element

Strings and custom properties keep arbitrary text, so '</style>' within
one of them ended the element and allowed injecting HTML.
---
 src/render/html/element/style.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/render/html/element/style.rs b/src/render/html/element/style.rs
index b8fb58e..22f0e3b 100644
--- a/src/render/html/element/style.rs
+++ b/src/render/html/element/style.rs
@@ -49,10 +49,14 @@ pub fn render_style(ctx: &mut HtmlContext, input_css: &str) {
         }
     };
 
+    // CSS strings, URLs, and custom properties may contain arbitrary text,
+    // including a closing tag. As "\/" is the CSS escape for "/", this has
+    // the same meaning in CSS but cannot end the HTML element.
+    let output_css = output_css.replace("</", "<\\/");
+
     ctx.html().style().inner(|ctx| {
-        // SAFETY: The resultant CSS cannot contain HTML-escaping elements,
-        //         as those are invalid and would not be retained during
-        //         the parcel_css parsing process.
+        // SAFETY: The <style> element only ends at "</style", which was
+        //         made impossible above.
         ctx.push_raw_str(&output_css);
     });
 }
-- 
2.43.0


From 8edf7d1969ae9d39031a8e7f6e25f99eeb32a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 03/33] fix: don't nest tooltips of bibliography citations

An entry citing itself (or a cycle of entries) overflowed the stack.
---
 src/render/html/context.rs              | 16 ++++++++++++++++
 src/render/html/element/bibliography.rs |  7 +++++++
 2 files changed, 23 insertions(+)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index 651af3b..a4f8077 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -76,6 +76,7 @@ where
     table_of_contents_index: usize,
     equation_index: NonZeroUsize,
     footnote_index: NonZeroUsize,
+    in_bibcite_tooltip: bool,
 }
 
 impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
@@ -125,6 +126,7 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             table_of_contents_index: 0,
             equation_index: NonZeroUsize::new(1).unwrap(),
             footnote_index: NonZeroUsize::new(1).unwrap(),
+            in_bibcite_tooltip: false,
         }
     }
 
@@ -252,6 +254,20 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             .map(|elements| elements.as_slice())
     }
 
+    /// Whether we are inside the tooltip of a bibliography citation.
+    ///
+    /// Bibliography entries can cite other entries, including themselves,
+    /// so a citation found in a tooltip must not get a tooltip of its own.
+    #[inline]
+    pub fn in_bibcite_tooltip(&self) -> bool {
+        self.in_bibcite_tooltip
+    }
+
+    #[inline]
+    pub fn set_bibcite_tooltip(&mut self, value: bool) {
+        self.in_bibcite_tooltip = value;
+    }
+
     // Backlinks
     #[inline]
     pub fn add_link(&mut self, link: &LinkLocation) {
diff --git a/src/render/html/element/bibliography.rs b/src/render/html/element/bibliography.rs
index 61cfe87..7c38fbf 100644
--- a/src/render/html/element/bibliography.rs
+++ b/src/render/html/element/bibliography.rs
@@ -59,6 +59,11 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                         ctx.push_raw(']');
                     }
 
+                    // Don't nest tooltips, since entries may cite each other.
+                    if ctx.in_bibcite_tooltip() {
+                        return;
+                    }
+
                     // Tooltip shown on hover.
                     // Is aria-hidden due to difficulty in getting a simultaneous
                     // tooltip and link to work. A screen reader can still navigate
@@ -79,10 +84,12 @@ pub fn render_bibcite(ctx: &mut HtmlContext, label: &str, brackets: bool) {
                                 .contents(&label);
 
                             // Actual tooltip contents
+                            ctx.set_bibcite_tooltip(true);
                             ctx.html()
                                 .span()
                                 .attr(attr!("class" => "wj-bibliography-ref-contents"))
                                 .contents(contents);
+                            ctx.set_bibcite_tooltip(false);
                         });
                 });
         }
-- 
2.43.0


From 9a6b26311b2b1231dc853b81a95bab5824657f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 04/33] fix: don't count footnotes repeated by bibliography
 tooltips

A footnote within a bibliography entry was counted again for each citation
of it, running past the end of the footnote list and panicking.
---
 src/render/html/element/footnotes.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/render/html/element/footnotes.rs b/src/render/html/element/footnotes.rs
index dba35fa..473ea07 100644
--- a/src/render/html/element/footnotes.rs
+++ b/src/render/html/element/footnotes.rs
@@ -23,6 +23,13 @@ use super::prelude::*;
 pub fn render_footnote(ctx: &mut HtmlContext) {
     debug!("Rendering footnote reference");
 
+    // The contents of a bibliography entry are rendered in the bibliography
+    // itself, and again in the tooltip of each of its citations. The footnote
+    // only exists once, so the copies in the tooltips are not counted or shown.
+    if ctx.in_bibcite_tooltip() {
+        return;
+    }
+
     let index = ctx.next_footnote_index();
     let id = str!(index);
 
-- 
2.43.0


From 579a3c0e6624d99eca793f122afb09ac2bb2819b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 05/33] fix: don't record same-page anchor links as internal
 backlinks

---
 src/render/html/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/render/html/context.rs b/src/render/html/context.rs
index a4f8077..79a9c75 100644
--- a/src/render/html/context.rs
+++ b/src/render/html/context.rs
@@ -281,7 +281,9 @@ impl<'i, 'h, 'e, 't> HtmlContext<'i, 'h, 'e, 't> {
             LinkLocation::Url(link) => {
                 let mut link: &str = link;
 
-                if link == "javascript:;" {
+                // Links which do nothing, or which only jump to an anchor
+                // on this same page, are not links to another page.
+                if link == "javascript:;" || link.starts_with('#') {
                     return;
                 }
 
-- 
2.43.0


From 989025e6fcbbf97e5998644dbdaef0357da053d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 06/33] fix: format dates lacking a time or timezone

RFC 2822 needs an offset, so these were always rendered as an error.
---
 src/tree/date.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/tree/date.rs b/src/tree/date.rs
index 236574c..4f9b0f3 100644
--- a/src/tree/date.rs
+++ b/src/tree/date.rs
@@ -64,13 +64,9 @@ impl DateItem {
     pub fn format(self) -> io::Result<String> {
         use time::error::Format;
 
-        let result = match self {
-            DateItem::Date(date) => date.format(&Rfc2822),
-            DateItem::DateTime(datetime) => datetime.format(&Rfc2822),
-            DateItem::DateTimeTz(datetime_tz) => datetime_tz.format(&Rfc2822),
-        };
-
-        result.map_err(|error| match error {
+        // RFC 2822 requires a time and an offset, so a date on its own
+        // or a datetime without a timezone cannot be formatted directly.
+        self.to_datetime_tz().format(&Rfc2822).map_err(|error| match error {
             Format::StdIo(io_error) => io_error,
             _ => io::Error::new(io::ErrorKind::Other, error),
         })
-- 
2.43.0


From 9de94e14cd1128edf1420f9504328489f3f78653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:13 +0000
Subject: [PATCH 07/33] fix: discard footnotes and other gathered items of
 failed rules

When a rule fails its elements are thrown away and the text is parsed again
in some other way, but its footnotes, table of contents entries, code blocks,
HTML blocks, and bibliographies were kept. This caused duplicates and made
footnote references point at the wrong footnote.
---
 src/parsing/parser.rs                     | 42 +++++++++++++++++++++++
 src/parsing/rule/impls/definition_list.rs |  2 ++
 src/parsing/rule/mod.rs                   | 18 ++++++----
 src/tree/bibliography.rs                  |  4 +++
 4 files changed, 60 insertions(+), 6 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index f915c12..904eb01 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -320,6 +320,35 @@ impl<'r, 't> Parser<'r, 't> {
         self.bibliographies.borrow_mut().append(bibliographies);
     }
 
+    /// Notes what items have been gathered so far.
+    ///
+    /// See `discard_shared_items()`.
+    pub fn mark_shared_items(&self) -> SharedItemsMark {
+        SharedItemsMark {
+            table_of_contents: self.table_of_contents.borrow().len(),
+            html_blocks: self.html_blocks.borrow().len(),
+            code_blocks: self.code_blocks.borrow().len(),
+            footnotes: self.footnotes.borrow().len(),
+            bibliographies: self.bibliographies.borrow().next_index(),
+        }
+    }
+
+    /// Removes all items gathered since the mark was made.
+    ///
+    /// For use when the elements they belong to are not
+    /// going to be part of the syntax tree.
+    pub fn discard_shared_items(&mut self, mark: SharedItemsMark) {
+        self.table_of_contents
+            .borrow_mut()
+            .truncate(mark.table_of_contents);
+        self.html_blocks.borrow_mut().truncate(mark.html_blocks);
+        self.code_blocks.borrow_mut().truncate(mark.code_blocks);
+        self.footnotes.borrow_mut().truncate(mark.footnotes);
+        self.bibliographies
+            .borrow_mut()
+            .truncate(mark.bibliographies);
+    }
+
     // State evaluation
     pub fn evaluate(&self, condition: ParseCondition) -> bool {
         debug!(
@@ -571,6 +600,19 @@ impl<'r, 't> Parser<'r, 't> {
     }
 }
 
+/// The lengths of the shared lists at some point in parsing.
+///
+/// Since items are only ever appended, this is sufficient
+/// to discard everything which was added afterwards.
+#[derive(Debug, Copy, Clone)]
+pub struct SharedItemsMark {
+    table_of_contents: usize,
+    html_blocks: usize,
+    code_blocks: usize,
+    footnotes: usize,
+    bibliographies: usize,
+}
+
 #[derive(Debug)]
 pub struct NonUniqueNameError;
 
diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 1a4f8fb..f601efe 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -67,6 +67,7 @@ fn parse_definition_list<'r, 't>(
     // Collect remainder, halting if there's a failure
     if !at_end {
         loop {
+            let mark = parser.mark_shared_items();
             let sub_parser = &mut parser.clone();
 
             match parse_item(sub_parser) {
@@ -84,6 +85,7 @@ fn parse_definition_list<'r, 't>(
                 }
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
+                    parser.discard_shared_items(mark);
                     break;
                 }
             }
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index bf46757..5d204f9 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -67,15 +67,21 @@ impl Rule {
         }
 
         // Fork parser and try running the rule.
+        let mark = parser.mark_shared_items();
         let mut sub_parser = parser.clone_with_rule(self);
-        let result = (self.try_consume_fn)(&mut sub_parser);
-
-        if let Ok(ref output) = result {
-            // First, ensure there aren't any partial elements in the result.
+        let result = (self.try_consume_fn)(&mut sub_parser).and_then(|output| {
+            // Ensure there aren't any partial elements in the result.
             output.check_partials(parser)?;
+            Ok(output)
+        });
+
+        match result {
+            // Finally, save the parser state since it succeeded.
+            Ok(_) => parser.update(&sub_parser),
 
-            // Now, finally save the parser state since it succeeded.
-            parser.update(&sub_parser);
+            // The elements are discarded, so anything they gathered
+            // (e.g. footnotes) must be discarded as well.
+            Err(_) => parser.discard_shared_items(mark),
         }
 
         result
diff --git a/src/tree/bibliography.rs b/src/tree/bibliography.rs
index 1284e8c..c68b7bd 100644
--- a/src/tree/bibliography.rs
+++ b/src/tree/bibliography.rs
@@ -102,6 +102,10 @@ impl<'t> BibliographyList<'t> {
         self.0.append(&mut other.0);
     }
 
+    pub fn truncate(&mut self, len: usize) {
+        self.0.truncate(len);
+    }
+
     #[inline]
     pub fn next_index(&self) -> usize {
         self.0.len()
-- 
2.43.0


From 7c61d33d4709b36c333655d2a9363d4a9688edaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 08/33] fix: exclude footnotes and other gathered items of
 false conditionals

The body of an [[iftags]] or [[ifcategory]] whose condition fails is not part
of the page, but its footnotes, headings, code blocks etc. still were.
---
 src/parsing/parser.rs                                   | 4 ++--
 src/parsing/rule/impls/block/blocks/footnote.rs         | 2 +-
 src/parsing/rule/impls/block/blocks/ifcategory.rs       | 8 ++++++++
 src/parsing/rule/impls/block/blocks/iftags.rs           | 8 ++++++++
 src/parsing/rule/impls/block/blocks/include_elements.rs | 2 +-
 5 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 904eb01..b6c5d2c 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -203,8 +203,8 @@ impl<'r, 't> Parser<'r, 't> {
     }
 
     #[inline]
-    pub fn set_footnote_block(&mut self) {
-        self.has_footnote_block = true;
+    pub fn set_footnote_block(&mut self, value: bool) {
+        self.has_footnote_block = value;
     }
 
     // Parse settings helpers
diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index 8b592e2..c1876cc 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -118,7 +118,7 @@ fn parse_footnote_block<'r, 't>(
     }
 
     // Tell parser that a footnote block was added
-    parser.set_footnote_block();
+    parser.set_footnote_block(true);
 
     // Build and return
     ok!(Element::FootnoteBlock { title, hide })
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index 951064e..af65333 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -66,6 +66,10 @@ fn parse_fn<'r, 't>(
             }
         })?;
 
+    // In case this gets excluded
+    let mark = parser.mark_shared_items();
+    let has_footnote_block = parser.has_footnote_block();
+
     // Get body content, never with paragraphs
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFCATEGORY, false)?.into();
@@ -84,6 +88,10 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Also exclude everything that these elements added to the page.
+        parser.discard_shared_items(mark);
+        parser.set_footnote_block(has_footnote_block);
+
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index 5be9522..d0097b3 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -50,6 +50,10 @@ fn parse_fn<'r, 't>(
             None => Err(parser.make_err(ParseErrorKind::BlockMissingArguments)),
         })?;
 
+    // In case this gets excluded
+    let mark = parser.mark_shared_items();
+    let has_footnote_block = parser.has_footnote_block();
+
     // Get body content, never with paragraphs
     let (elements, errors, paragraph_safe) =
         parser.get_body_elements(&BLOCK_IFTAGS, false)?.into();
@@ -68,6 +72,10 @@ fn parse_fn<'r, 't>(
     } else {
         trace!("Conditions failed, excluding elements");
 
+        // Also exclude everything that these elements added to the page.
+        parser.discard_shared_items(mark);
+        parser.set_footnote_block(has_footnote_block);
+
         Elements::None
     };
 
diff --git a/src/parsing/rule/impls/block/blocks/include_elements.rs b/src/parsing/rule/impls/block/blocks/include_elements.rs
index 9cc93c7..8fabfc8 100644
--- a/src/parsing/rule/impls/block/blocks/include_elements.rs
+++ b/src/parsing/rule/impls/block/blocks/include_elements.rs
@@ -71,7 +71,7 @@ fn parse_fn<'r, 't>(
     } = include_page(parser, &page_ref)?;
 
     if has_footnote_block {
-        parser.set_footnote_block();
+        parser.set_footnote_block(true);
     }
 
     // Extract elements and errors
-- 
2.43.0


From 52195548344c4c35281c146dc3aa78b31eb30389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 09/33] fix: don't lose the '+' of a line after a heading, or
 overflow the stack

A line such as '+text' following a heading had its leading '+'s removed.
Additionally, headings were collected recursively, so a page with thousands
of successive headings crashed.
---
 src/parsing/rule/impls/header.rs | 58 ++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 17 deletions(-)

diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6ee06e1..6dc99a5 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -30,7 +30,45 @@ pub const RULE_HEADER: Rule = Rule {
 fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
-    debug!("Trying to create header container");
+    debug!("Trying to create header containers");
+
+    // Need at least one heading
+    let (elements, mut all_errors, _) = parse_heading(parser)?.into();
+    let mut all_elements: Vec<_> = elements.into_iter().collect();
+
+    // Collect headings until we hit an error.
+    //
+    // We do this because the container consumes the newline,
+    // which we need to trigger the next header when using regular rules.
+    //
+    // If it's not a heading, then its tokens must not be consumed.
+    loop {
+        let mark = parser.mark_shared_items();
+        let sub_parser = &mut parser.clone();
+
+        match parse_heading(sub_parser) {
+            Ok(success) => {
+                let (elements, mut errors, _) = success.into();
+                all_elements.extend(elements);
+                all_errors.append(&mut errors);
+                parser.update(sub_parser);
+            }
+            Err(error) => {
+                trace!("Failed to get the next heading, ending iteration: {error:?}");
+                parser.discard_shared_items(mark);
+                break;
+            }
+        }
+    }
+
+    // Build final Elements object
+    ok!(false; all_elements, all_errors)
+}
+
+fn parse_heading<'r, 't>(
+    parser: &mut Parser<'r, 't>,
+) -> ParseResult<'r, 't, Elements<'t>> {
+    trace!("Trying to create header container");
 
     macro_rules! step {
         ($token:expr) => {{
@@ -53,7 +91,7 @@ fn try_consume_fn<'r, 't>(
     // Step over whitespace
     step!(Token::Whitespace);
 
-    let (elements, mut all_errors, _) = collect_container(
+    let (elements, errors, _) = collect_container(
         parser,
         RULE_HEADER,
         ContainerType::Header(heading),
@@ -80,19 +118,5 @@ fn try_consume_fn<'r, 't>(
         parser.push_table_of_contents_entry(heading.level, elements);
     }
 
-    // Recursively collect headings until we hit an error.
-    //
-    // We do this because the container consumes the newline,
-    // which we need to trigger the next header when using regular rules.
-    let mut all_elements: Vec<_> = elements.into_iter().collect();
-
-    if let Ok(success) = (try_consume_fn)(parser) {
-        let (elements, mut errors, _) = success.into();
-
-        all_elements.extend(elements);
-        all_errors.append(&mut errors);
-    }
-
-    // Build final Elements object
-    ok!(false; all_elements, all_errors)
+    ok!(false; elements, errors)
 }
-- 
2.43.0


From 9a245b9b18d207b61a69dbcbe06995d56b6c1a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 10/33] fix: don't lose the '*' or '#' of a line after a list

A line such as '*text' following a list had its bullet removed.
---
 src/parsing/rule/impls/list.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index 59eab30..fe02920 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -53,7 +53,11 @@ fn try_consume_fn<'r, 't>(
     let mut paragraph_safe = false;
 
     // Produce a depth list with elements
+    //
+    // If a line turns out to not be a list item, then we
+    // return to its start so that its tokens are not lost.
     loop {
+        let line_start = parser.clone();
         let current = parser.current();
         let depth = match current.token {
             // Count the number of spaces for its depth
@@ -71,6 +75,7 @@ fn try_consume_fn<'r, 't>(
             // Invalid token, bail
             _ => {
                 warn!("Didn't find correct bullet token or couldn't determine list depth, ending list iteration");
+                parser.update(&line_start);
                 break;
             }
         };
@@ -87,6 +92,7 @@ fn try_consume_fn<'r, 't>(
             Some(ltype) => ltype,
             None => {
                 trace!("Didn't find bullet token, couldn't determine list type, ending list iteration");
+                parser.update(&line_start);
                 break;
             }
         };
@@ -98,6 +104,7 @@ fn try_consume_fn<'r, 't>(
         let current = parser.current();
         if current.token != Token::Whitespace {
             warn!("Didn't find whitespace after bullet token, ending list iteration");
+            parser.update(&line_start);
             break;
         }
         parser.step()?;
-- 
2.43.0


From 6f0f259e5652f2c6ba3ef68843833587996969ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 11/33] fix: don't lose an incomplete last row of a table

If the final row was not properly closed then all of its
contents were removed from the page.
---
 src/parsing/rule/impls/table.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index 93eb57c..1bd7ef1 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -49,6 +49,11 @@ fn try_consume_fn<'r, 't>(
 
         let mut cells = Vec::new();
 
+        // To undo an incomplete row
+        let row_start = parser.clone();
+        let row_mark = parser.mark_shared_items();
+        let row_errors = errors.len();
+
         macro_rules! build_row {
             () => {
                 rows.push(TableRow {
@@ -65,6 +70,12 @@ fn try_consume_fn<'r, 't>(
                     return Err(parser.make_err(ParseErrorKind::RuleFailed));
                 } else {
                     // At least one row was created, end it here.
+                    //
+                    // What was parsed of the current row is not
+                    // part of the table, so we return to its start.
+                    parser.update(&row_start);
+                    parser.discard_shared_items(row_mark);
+                    errors.truncate(row_errors);
                     break 'table;
                 }
             };
-- 
2.43.0


From c6b5b22ff1321be578253f5242367de7735d06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:27 +0000
Subject: [PATCH 12/33] fix: don't panic on closing parentheses without a
 bibliography citation

---
 src/parsing/rule/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/mapping.rs b/src/parsing/rule/mapping.rs
index ec61180..f6c816b 100644
--- a/src/parsing/rule/mapping.rs
+++ b/src/parsing/rule/mapping.rs
@@ -44,7 +44,7 @@ pub static RULE_MAP: Lazy<EnumMap<Token, Vec<Rule>>> = Lazy::new(|| {
         Token::LeftBlockStar => vec![RULE_BLOCK_STAR],
         Token::RightBlock => vec![],
         Token::LeftParentheses => vec![RULE_BIBCITE, RULE_TEXT],
-        Token::RightParentheses => vec![RULE_BIBCITE, RULE_TEXT],
+        Token::RightParentheses => vec![RULE_TEXT],
         Token::LeftMath => vec![RULE_MATH],
         Token::RightMath => vec![],
         Token::DoubleDash => vec![RULE_STRIKETHROUGH_DASH, RULE_DASH],
-- 
2.43.0


From edccb8b2f05936565d086c16e6766634ca2da79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 13/33] fix: don't take any parenthesized pair of words for a
 bibliography citation

---
 src/parsing/rule/impls/bibcite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/bibcite.rs b/src/parsing/rule/impls/bibcite.rs
index a6047d2..fa7c9fa 100644
--- a/src/parsing/rule/impls/bibcite.rs
+++ b/src/parsing/rule/impls/bibcite.rs
@@ -35,7 +35,7 @@ fn try_consume_fn<'r, 't>(
     // This is like a poor man's block, it's "((bibcite <label>))"
     let current = parser.current();
     if current.token != Token::Identifier
-        && !current.slice.eq_ignore_ascii_case("bibcite")
+        || !current.slice.eq_ignore_ascii_case("bibcite")
     {
         warn!("'((' not followed by 'bibcite', failing rule");
         return Err(parser.make_err(ParseErrorKind::RuleFailed));
-- 
2.43.0


From cd0c47d793cdae6f2f4006fb9aa5c3cfb11d0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 14/33] fix: accept list items, table rows, tabs etc. only as
 immediate children

Anywhere deeper they ended up as partial elements in the final tree, and
made the paragraph builder or the renderers panic.
---
 src/parsing/parser.rs                           | 17 ++++++++++++++++-
 .../rule/impls/block/blocks/ifcategory.rs       |  6 +++++-
 src/parsing/rule/impls/block/blocks/iftags.rs   |  6 +++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index b6c5d2c..115c70b 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -81,6 +81,7 @@ pub struct Parser<'r, 't> {
 
     // Flags
     accepts_partial: AcceptsPartial,
+    outer_accepts_partial: AcceptsPartial, // What the consumer of the current rule accepts.
     in_footnote: bool, // Whether we're currently inside [[footnote]] ... [[/footnote]].
     has_footnote_block: bool, // Whether a [[footnoteblock]] was created.
     start_of_line: bool,
@@ -116,6 +117,7 @@ impl<'r, 't> Parser<'r, 't> {
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
             accepts_partial: AcceptsPartial::None,
+            outer_accepts_partial: AcceptsPartial::None,
             in_footnote: false,
             has_footnote_block: false,
             start_of_line: true,
@@ -148,6 +150,14 @@ impl<'r, 't> Parser<'r, 't> {
         self.accepts_partial
     }
 
+    /// Which partials the consumer of the current rule's elements accepts.
+    ///
+    /// For rules which pass on elements from their body to whatever contains them.
+    #[inline]
+    pub fn outer_accepts_partial(&self) -> AcceptsPartial {
+        self.outer_accepts_partial
+    }
+
     #[inline]
     pub fn in_footnote(&self) -> bool {
         self.in_footnote
@@ -169,9 +179,15 @@ impl<'r, 't> Parser<'r, 't> {
         self.rule = rule;
     }
 
+    /// Clones the parser to run the given rule.
+    ///
+    /// Partials accepted by the current rule are only accepted as its immediate
+    /// children, so in the clone none are accepted until it says otherwise.
     pub fn clone_with_rule(&self, rule: Rule) -> Self {
         let mut clone = self.clone();
         clone.set_rule(rule);
+        clone.outer_accepts_partial = self.accepts_partial;
+        clone.accepts_partial = AcceptsPartial::None;
         clone
     }
 
@@ -445,7 +461,6 @@ impl<'r, 't> Parser<'r, 't> {
     #[inline]
     pub fn update(&mut self, parser: &Parser<'r, 't>) {
         // Flags
-        self.accepts_partial = parser.accepts_partial;
         self.in_footnote = parser.in_footnote;
         self.has_footnote_block = parser.has_footnote_block;
         self.start_of_line = parser.start_of_line;
diff --git a/src/parsing/rule/impls/block/blocks/ifcategory.rs b/src/parsing/rule/impls/block/blocks/ifcategory.rs
index af65333..f9df9a3 100644
--- a/src/parsing/rule/impls/block/blocks/ifcategory.rs
+++ b/src/parsing/rule/impls/block/blocks/ifcategory.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::{ElementCondition, ElementConditionType};
+use crate::parsing::{ElementCondition, ElementConditionType, ParserWrap};
 
 pub const BLOCK_IFCATEGORY: BlockRule = BlockRule {
     name: "block-ifcategory",
@@ -66,6 +66,10 @@ fn parse_fn<'r, 't>(
             }
         })?;
 
+    // The body becomes part of the container, so it can have what that accepts
+    let accepts_partial = parser.outer_accepts_partial();
+    let parser = &mut ParserWrap::new(parser, accepts_partial);
+
     // In case this gets excluded
     let mark = parser.mark_shared_items();
     let has_footnote_block = parser.has_footnote_block();
diff --git a/src/parsing/rule/impls/block/blocks/iftags.rs b/src/parsing/rule/impls/block/blocks/iftags.rs
index d0097b3..575c0c4 100644
--- a/src/parsing/rule/impls/block/blocks/iftags.rs
+++ b/src/parsing/rule/impls/block/blocks/iftags.rs
@@ -20,7 +20,7 @@
 
 use super::prelude::*;
 use crate::data::PageInfo;
-use crate::parsing::ElementCondition;
+use crate::parsing::{ElementCondition, ParserWrap};
 
 pub const BLOCK_IFTAGS: BlockRule = BlockRule {
     name: "block-iftags",
@@ -50,6 +50,10 @@ fn parse_fn<'r, 't>(
             None => Err(parser.make_err(ParseErrorKind::BlockMissingArguments)),
         })?;
 
+    // The body becomes part of the container, so it can have what that accepts
+    let accepts_partial = parser.outer_accepts_partial();
+    let parser = &mut ParserWrap::new(parser, accepts_partial);
+
     // In case this gets excluded
     let mark = parser.mark_shared_items();
     let has_footnote_block = parser.has_footnote_block();
-- 
2.43.0


From c63b19fda9bf92b08d55af8c9a18482169941500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 15/33] fix: don't panic on block names followed by two
 underscores

---
 src/parsing/rule/impls/block/rule.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsing/rule/impls/block/rule.rs b/src/parsing/rule/impls/block/rule.rs
index 8f8ed3c..a219a69 100644
--- a/src/parsing/rule/impls/block/rule.rs
+++ b/src/parsing/rule/impls/block/rule.rs
@@ -106,17 +106,17 @@ where
     let (name, in_head) = parser.get_block_name(flag_star)?;
     trace!("Got block name '{name}' (in head {in_head})");
 
-    let (name, flag_score) = match name.strip_suffix('_') {
-        Some(name) => (name, true),
-        None => (name, false),
-    };
-
-    // Get the block rule for this name
+    // Get the block rule for this name (ignoring the score flag, if any)
     let block = match get_block_rule_with_name(name) {
         Some(block) => block,
         None => return Err(parser.make_err(ParseErrorKind::NoSuchBlock)),
     };
 
+    let (name, flag_score) = match name.strip_suffix('_') {
+        Some(name) => (name, true),
+        None => (name, false),
+    };
+
     // Set block rule for better errors
     parser.set_block(block);
 
-- 
2.43.0


From 78ea2817f8dc482176fb88c22ecf875f87907f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:34 +0000
Subject: [PATCH 16/33] fix: don't accept table cells as immediate children of
 header cells

---
 src/parsing/rule/impls/block/blocks/table.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/table.rs b/src/parsing/rule/impls/block/blocks/table.rs
index b1b547e..0b36dc9 100644
--- a/src/parsing/rule/impls/block/blocks/table.rs
+++ b/src/parsing/rule/impls/block/blocks/table.rs
@@ -232,8 +232,6 @@ fn parse_cell_header<'r, 't>(
     flag_score: bool,
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
-    let parser = &mut ParserWrap::new(parser, AcceptsPartial::TableCell);
-
     // Get block contents.
     let ParsedBlock {
         elements,
-- 
2.43.0


From bd3828ee35d1a266a2464a35425c55bb5009b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 17/33] fix: check the whole name of 'aria-' and 'data-'
 attributes

---
 src/tree/attribute/safe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree/attribute/safe.rs b/src/tree/attribute/safe.rs
index 8f59b4f..0dba1b8 100644
--- a/src/tree/attribute/safe.rs
+++ b/src/tree/attribute/safe.rs
@@ -182,7 +182,7 @@ pub static URL_ATTRIBUTES: Lazy<HashSet<UniCase<&'static str>>> =
     Lazy::new(|| hashset_unicase!["href", "src",]);
 
 static ATTRIBUTE_SUFFIX_SAFE: Lazy<Regex> =
-    Lazy::new(|| Regex::new(r"[a-zA-z0-9\-]+").unwrap());
+    Lazy::new(|| Regex::new(r"^[a-zA-Z0-9\-]+$").unwrap());
 
 pub const SAFE_ATTRIBUTE_PREFIXES: [&str; 2] = ["aria-", "data-"];
 
@@ -192,8 +192,8 @@ pub fn is_safe_attribute(attribute: UniCase<&str>) -> bool {
     }
 
     for prefix in &SAFE_ATTRIBUTE_PREFIXES {
-        if attribute.starts_with(prefix) && ATTRIBUTE_SUFFIX_SAFE.is_match(&attribute) {
-            return true;
+        if let Some(suffix) = attribute.strip_prefix(prefix) {
+            return ATTRIBUTE_SUFFIX_SAFE.is_match(suffix);
         }
     }
 
-- 
2.43.0


From 66917bda47e42da2403fc6b01ebce6fdca3f9bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 18/33] fix: don't allow a footnote block inside a footnote

Rendering it recursed until the stack overflowed.
---
 src/parsing/rule/impls/block/blocks/footnote.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsing/rule/impls/block/blocks/footnote.rs b/src/parsing/rule/impls/block/blocks/footnote.rs
index c1876cc..6f78849 100644
--- a/src/parsing/rule/impls/block/blocks/footnote.rs
+++ b/src/parsing/rule/impls/block/blocks/footnote.rs
@@ -102,6 +102,12 @@ fn parse_footnote_block<'r, 't>(
     in_head: bool,
 ) -> ParseResult<'r, 't, Elements<'t>> {
     debug!("Parsing footnote list block (in-head {in_head})");
+
+    // A list of footnotes inside one of them would contain itself, without end.
+    if parser.in_footnote() {
+        return Err(parser.make_err(ParseErrorKind::FootnotesNested));
+    }
+
     assert!(!flag_star, "Footnote block doesn't allow star flag");
     assert!(!flag_score, "Footnote block doesn't allow score flag");
     assert_block_name(&BLOCK_FOOTNOTE_BLOCK, name);
-- 
2.43.0


From ae5dd19fd8fc8a091efd76ba991773a0a46ace73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:54 +0000
Subject: [PATCH 19/33] fix: don't panic on an include inside of the arguments
 of another

---
 src/includes/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/includes/mod.rs b/src/includes/mod.rs
index 4656265..9794cea 100644
--- a/src/includes/mod.rs
+++ b/src/includes/mod.rs
@@ -80,6 +80,7 @@ where
 
     let mut ranges = Vec::new();
     let mut includes = Vec::new();
+    let mut last_end = 0;
 
     // Get include references
     for mtch in INCLUDE_REGEX.find_iter(input) {
@@ -91,8 +92,16 @@ where
             mtch.as_str(),
         );
 
+        // Skip if this is within the arguments of the previous include block,
+        // the ranges to be substituted cannot overlap.
+        if start < last_end {
+            warn!("Include regex match is inside of another include block");
+            continue;
+        }
+
         match parse_include_block(input, start, settings) {
             Ok((include, end)) => {
+                last_end = end;
                 ranges.push(start..end);
                 includes.push(include);
             }
-- 
2.43.0


From 31358e1e04e0b5a3c1f57dacac364cef0bf9fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 20/33] fix: don't panic when mapping the indices of an empty
 text

---
 src/utf16.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/utf16.rs b/src/utf16.rs
index 31316bf..7bb55e3 100644
--- a/src/utf16.rs
+++ b/src/utf16.rs
@@ -47,19 +47,17 @@ impl<'t> Utf16IndexMap<'t> {
     pub fn new(text: &'t str) -> Self {
         let mut map = HashMap::new();
         let mut utf16_index = 0;
-        let mut last_utf8_index = None;
 
         // Add index for the start of each character
         for (utf8_index, ch) in text.char_indices() {
             map.insert(utf8_index, utf16_index);
             utf16_index += ch.len_utf16();
-            last_utf8_index = Some(utf8_index + ch.len_utf8());
         }
 
         // Add last index, needed for the final token span.
-        if let Some(utf8_index) = last_utf8_index {
-            map.insert(utf8_index, utf16_index);
-        }
+        //
+        // If the text is empty, then this is the only index.
+        map.insert(text.len(), utf16_index);
 
         Utf16IndexMap {
             map,
-- 
2.43.0


From 2ad657fdd15e3584ca2a527b8cb9a4318b2be560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 21/33] fix: make NullIncluder return a result for each include

---
 src/includes/includer/null.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/includes/includer/null.rs b/src/includes/includer/null.rs
index ddaee09..4867d87 100644
--- a/src/includes/includer/null.rs
+++ b/src/includes/includer/null.rs
@@ -31,9 +31,18 @@ impl<'t> Includer<'t> for NullIncluder {
     #[inline]
     fn include_pages(
         &mut self,
-        _includes: &[IncludeRef<'t>],
+        includes: &[IncludeRef<'t>],
     ) -> Result<Vec<FetchedPage<'t>>, Infallible> {
-        Ok(Vec::new())
+        // No pages are found, see below for what they're replaced with.
+        let pages = includes
+            .iter()
+            .map(|include| FetchedPage {
+                page_ref: include.page_ref().clone(),
+                content: None,
+            })
+            .collect();
+
+        Ok(pages)
     }
 
     #[inline]
-- 
2.43.0


From c738b2dbdcbfa6d270bc9a687c57f67b829fa5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:52 +0000
Subject: [PATCH 22/33] fix: prevent a path following 'javascript:;' from being
 executed

---
 src/url.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/url.rs b/src/url.rs
index 0e53cf2..a4b66ff 100644
--- a/src/url.rs
+++ b/src/url.rs
@@ -95,14 +95,24 @@ pub fn normalize_link<'a>(
 
             match site {
                 Some(site) => Cow::Owned(helper.build_url(site, page)),
-                None => normalize_href(page),
+                None => normalize_path(page),
             }
         }
     }
 }
 
 pub fn normalize_href(url: &str) -> Cow<str> {
-    if is_url(url) || url.starts_with('#') || url == "javascript:;" {
+    // This is only safe on its own. A page of this name may
+    // have a path following, which then would be executed.
+    if url == "javascript:;" {
+        Cow::Borrowed(url)
+    } else {
+        normalize_path(url)
+    }
+}
+
+fn normalize_path(url: &str) -> Cow<str> {
+    if is_url(url) || url.starts_with('#') {
         Cow::Borrowed(url)
     } else if dangerous_scheme(url) {
         warn!("Attempt to pass in dangerous URL: {url}");
-- 
2.43.0


From 1dd94897d580af7ae4847fd569fdff5f8f74404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 23/33] fix: replace formatted text with spaces in invisible
 containers of text renders

---
 src/render/text/context.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/render/text/context.rs b/src/render/text/context.rs
index c59039a..e1c2a22 100644
--- a/src/render/text/context.rs
+++ b/src/render/text/context.rs
@@ -266,6 +266,8 @@ where
 {
     #[inline]
     fn write_str(&mut self, s: &str) -> fmt::Result {
-        self.buffer().write_str(s)
+        // Through push_str(), to respect invisible mode
+        self.push_str(s);
+        Ok(())
     }
 }
-- 
2.43.0


From 1031882afb8e16a4a233fb44ec791b630bfd35ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 24/33] fix: don't append the path of interwiki links twice

---
 src/parsing/rule/impls/link_triple.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parsing/rule/impls/link_triple.rs b/src/parsing/rule/impls/link_triple.rs
index f66e6c4..724c077 100644
--- a/src/parsing/rule/impls/link_triple.rs
+++ b/src/parsing/rule/impls/link_triple.rs
@@ -29,7 +29,7 @@
 //! Its syntax is `[[[page-name | Label text]`.
 
 use super::prelude::*;
-use crate::tree::{AnchorTarget, LinkLabel, LinkLocation};
+use crate::tree::{AnchorTarget, LinkLabel, LinkLocation, LinkType};
 use std::borrow::Cow;
 
 pub const RULE_LINK_TRIPLE: Rule = Rule {
@@ -127,7 +127,7 @@ fn build_same<'r, 't>(
     let element = Element::Link {
         ltype,
         link,
-        extra: LinkLocation::parse_extra(cow!(url)),
+        extra: parse_extra(url, ltype),
         label: LinkLabel::Url(label),
         target,
     };
@@ -181,7 +181,7 @@ fn build_separate<'r, 't>(
     let element = Element::Link {
         ltype,
         link,
-        extra: LinkLocation::parse_extra(cow!(url)),
+        extra: parse_extra(url, ltype),
         label,
         target,
     };
@@ -190,6 +190,16 @@ fn build_separate<'r, 't>(
     ok!(element)
 }
 
+/// Gets the part of the URL following the page.
+///
+/// For interwiki links the whole path is already in the link location.
+fn parse_extra(url: &str, ltype: LinkType) -> Option<Cow<'_, str>> {
+    match ltype {
+        LinkType::Interwiki => None,
+        _ => LinkLocation::parse_extra(cow!(url)),
+    }
+}
+
 /// Strip off the category for use in URL triple-bracket links.
 ///
 /// The label for a URL link is its URL, but without its category.
-- 
2.43.0


From 8d1ce1bfc9756453a358bd46fc199ed85bd0d772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:23 +0000
Subject: [PATCH 25/33] fix: report the errors within definition lists

---
 src/parsing/rule/impls/definition_list.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index f601efe..2f86beb 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -93,7 +93,7 @@ fn parse_definition_list<'r, 't>(
     }
 
     // Build and return element
-    ok!(Element::DefinitionList(items))
+    ok!(Element::DefinitionList(items), errors)
 }
 
 fn parse_item<'r, 't>(
-- 
2.43.0


From 301f687f0adb72e41e67a27dbac8e000ebdc0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:24 +0000
Subject: [PATCH 26/33] fix: keep the offset of ISO 8601 dates that are not RFC
 3339

---
 src/parsing/rule/impls/block/blocks/date.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/date.rs b/src/parsing/rule/impls/block/blocks/date.rs
index 592d916..ba1da3b 100644
--- a/src/parsing/rule/impls/block/blocks/date.rs
+++ b/src/parsing/rule/impls/block/blocks/date.rs
@@ -120,16 +120,17 @@ fn parse_date(value: &str) -> Result<DateItem, DateParseError> {
         return Ok(datetime_tz.into());
     }
 
-    if let Ok(datetime) = PrimitiveDateTime::parse(value, &Iso8601::PARSING) {
-        trace!("Was ISO 8601 datetime string (no timezone), result '{datetime}'");
-        return Ok(datetime.into());
-    }
-
+    // This must precede the one without a timezone, which ignores any offset.
     if let Ok(datetime_tz) = OffsetDateTime::parse(value, &Iso8601::PARSING) {
         trace!("Was ISO 8601 datetime string, result '{datetime_tz}'");
         return Ok(datetime_tz.into());
     }
 
+    if let Ok(datetime) = PrimitiveDateTime::parse(value, &Iso8601::PARSING) {
+        trace!("Was ISO 8601 datetime string (no timezone), result '{datetime}'");
+        return Ok(datetime.into());
+    }
+
     if let Ok(datetime_tz) = OffsetDateTime::parse(value, &Rfc2822) {
         trace!("Was RFC 2822 datetime string, result '{datetime_tz}'");
         return Ok(datetime_tz.into());
-- 
2.43.0


From e51317d9273715abfd630d1d5ecc27ff5bbd8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:49 +0000
Subject: [PATCH 27/33] fix: a deeply indented line after a list does not undo
 the list

Only list items can exceed the maximum depth of lists; other lines end the list.
---
 src/parsing/rule/impls/list.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parsing/rule/impls/list.rs b/src/parsing/rule/impls/list.rs
index fe02920..4ccaef2 100644
--- a/src/parsing/rule/impls/list.rs
+++ b/src/parsing/rule/impls/list.rs
@@ -80,12 +80,6 @@ fn try_consume_fn<'r, 't>(
             }
         };
 
-        // Check that the depth isn't obscenely deep, to avoid DOS attacks via stack overflow.
-        if depth > MAX_LIST_DEPTH {
-            warn!("List item has a depth {depth} greater than the maximum ({MAX_LIST_DEPTH})! Failing");
-            return Err(parser.make_err(ParseErrorKind::ListDepthExceeded));
-        }
-
         // Check that we're processing a bullet, and get the type
         let current = parser.current();
         let list_type = match get_list_type(current.token) {
@@ -109,6 +103,12 @@ fn try_consume_fn<'r, 't>(
         }
         parser.step()?;
 
+        // Check that the depth isn't obscenely deep, to avoid DOS attacks via stack overflow.
+        if depth > MAX_LIST_DEPTH {
+            warn!("List item has a depth {depth} greater than the maximum ({MAX_LIST_DEPTH})! Failing");
+            return Err(parser.make_err(ParseErrorKind::ListDepthExceeded));
+        }
+
         // Parse elements until we hit the end of the line
         let elements = collect_consume(
             parser,
-- 
2.43.0


From 00d066e8ceee61a57a737d0e8cb3dac262e56166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:03 +0000
Subject: [PATCH 28/33] fix: stop at once when the recursion limit is exceeded

---
 src/parsing/consume.rs                    | 18 ++++++++++--------
 src/parsing/rule/impls/definition_list.rs |  3 +++
 src/parsing/rule/impls/header.rs          |  3 +++
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parsing/consume.rs b/src/parsing/consume.rs
index 2fe0c50..3fa6572 100644
--- a/src/parsing/consume.rs
+++ b/src/parsing/consume.rs
@@ -77,6 +77,16 @@ pub fn consume<'r, 't>(parser: &mut Parser<'r, 't>) -> ParseResult<'r, 't, Eleme
             }
             Err(error) => {
                 warn!("Rule failed, returning error: '{}'", error.kind().name());
+
+                // If we've hit the recursion limit, just bail
+                //
+                // Trying any other rules would attempt the same contents again,
+                // at each layer, which takes exponential time.
+                if error.kind() == ParseErrorKind::RecursionDepthExceeded {
+                    error!("Found recursion depth error, failing");
+                    return Err(error);
+                }
+
                 all_errors.push(error);
             }
         }
@@ -86,14 +96,6 @@ pub fn consume<'r, 't>(parser: &mut Parser<'r, 't>) -> ParseResult<'r, 't, Eleme
     let element = text!(current.slice);
     parser.step()?;
 
-    // If we've hit the recursion limit, just bail
-    if let Some(error) = all_errors.last() {
-        if error.kind() == ParseErrorKind::RecursionDepthExceeded {
-            error!("Found recursion depth error, failing");
-            return Err(error.clone());
-        }
-    }
-
     // Add fallback error to errors list
     all_errors.push(ParseError::new(
         ParseErrorKind::NoRulesMatch,
diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index 2f86beb..f028f38 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -83,6 +83,9 @@ fn parse_definition_list<'r, 't>(
                         break;
                     }
                 }
+                Err(error) if error.kind() == ParseErrorKind::RecursionDepthExceeded => {
+                    return Err(error);
+                }
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
                     parser.discard_shared_items(mark);
diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 6dc99a5..9dfc859 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -53,6 +53,9 @@ fn try_consume_fn<'r, 't>(
                 all_errors.append(&mut errors);
                 parser.update(sub_parser);
             }
+            Err(error) if error.kind() == ParseErrorKind::RecursionDepthExceeded => {
+                return Err(error);
+            }
             Err(error) => {
                 trace!("Failed to get the next heading, ending iteration: {error:?}");
                 parser.discard_shared_items(mark);
-- 
2.43.0


From 369a18815588736f403deb6a0759c6bc422d74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 29/33] fix: gather no blocks from a page which is not parsed

---
 src/parsing/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsing/mod.rs b/src/parsing/mod.rs
index 44b1af6..defe076 100644
--- a/src/parsing/mod.rs
+++ b/src/parsing/mod.rs
@@ -151,6 +151,8 @@ where
             let wikitext = tokenization.full_text().inner();
             let elements = vec![text!(wikitext)];
             let errors = vec![error];
+            let html_blocks = vec![];
+            let code_blocks = vec![];
             let table_of_contents = vec![];
             let footnotes = vec![];
             let bibliographies = BibliographyList::new();
-- 
2.43.0


From 2c0151d9607308063b5ddef08c4f9a4efdd837e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 30/33] fix: do not try again what is known not to match

An opened construct which is never closed had its contents parsed twice, so
that the time taken doubled with each of them.
---
 src/parsing/parser.rs                     | 66 +++++++++++++++++++++++
 src/parsing/rule/impls/definition_list.rs |  6 ++-
 src/parsing/rule/impls/header.rs          |  6 ++-
 src/parsing/rule/impls/table.rs           | 17 ++++--
 src/parsing/rule/mod.rs                   | 13 ++++-
 5 files changed, 101 insertions(+), 7 deletions(-)

diff --git a/src/parsing/parser.rs b/src/parsing/parser.rs
index 115c70b..008ba1e 100644
--- a/src/parsing/parser.rs
+++ b/src/parsing/parser.rs
@@ -30,6 +30,7 @@ use crate::tree::{
 };
 use std::borrow::Cow;
 use std::cell::RefCell;
+use std::collections::HashMap;
 use std::rc::Rc;
 use std::{mem, ptr};
 
@@ -79,6 +80,13 @@ pub struct Parser<'r, 't> {
     // overriding later ones.
     bibliographies: Rc<RefCell<BibliographyList<'t>>>,
 
+    // Failed rules
+    //
+    // When a rule fails, what it had tried to consume is parsed again by
+    // whichever rule applies instead. Without keeping track of the failures,
+    // this would double the work at each construct which is left open.
+    failed_attempts: Rc<RefCell<HashMap<RuleAttempt, FailedAttempt>>>,
+
     // Flags
     accepts_partial: AcceptsPartial,
     outer_accepts_partial: AcceptsPartial, // What the consumer of the current rule accepts.
@@ -116,6 +124,7 @@ impl<'r, 't> Parser<'r, 't> {
             code_blocks: make_shared_vec(),
             footnotes: make_shared_vec(),
             bibliographies: Rc::new(RefCell::new(BibliographyList::new())),
+            failed_attempts: Rc::new(RefCell::new(HashMap::new())),
             accepts_partial: AcceptsPartial::None,
             outer_accepts_partial: AcceptsPartial::None,
             in_footnote: false,
@@ -365,6 +374,43 @@ impl<'r, 't> Parser<'r, 't> {
             .truncate(mark.bibliographies);
     }
 
+    // Failed rules
+    fn rule_attempt(&self, name: &'static str) -> RuleAttempt {
+        RuleAttempt {
+            name,
+            parent_rule: self.rule.name(),
+            remaining: self.remaining.len(),
+            code_blocks: self.code_blocks.borrow().len(),
+            accepts_partial: self.accepts_partial,
+            in_footnote: self.in_footnote,
+            has_footnote_block: self.has_footnote_block,
+            start_of_line: self.start_of_line,
+        }
+    }
+
+    /// Notes that the given rule (or part of one) does not match here.
+    pub fn push_failed_attempt(&self, name: &'static str, error: &ParseError) {
+        let attempt = self.rule_attempt(name);
+        let failure = FailedAttempt {
+            depth: self.depth,
+            error: error.clone(),
+        };
+
+        self.failed_attempts.borrow_mut().insert(attempt, failure);
+    }
+
+    /// Gets the error of a previous attempt to match the given rule here, if it failed.
+    ///
+    /// Attempts made at a lower recursion depth do not count, since
+    /// this one might exceed the limit.
+    pub fn failed_attempt(&self, name: &'static str) -> Option<ParseError> {
+        self.failed_attempts
+            .borrow()
+            .get(&self.rule_attempt(name))
+            .filter(|failure| failure.depth >= self.depth)
+            .map(|failure| failure.error.clone())
+    }
+
     // State evaluation
     pub fn evaluate(&self, condition: ParseCondition) -> bool {
         debug!(
@@ -628,6 +674,26 @@ pub struct SharedItemsMark {
     bibliographies: usize,
 }
 
+/// Everything that decides whether a rule matches.
+#[derive(Debug, Copy, Clone, PartialEq, Eq, Hash)]
+struct RuleAttempt {
+    name: &'static str,
+    parent_rule: &'static str,
+    remaining: usize,
+    code_blocks: usize,
+    accepts_partial: AcceptsPartial,
+    in_footnote: bool,
+    has_footnote_block: bool,
+    start_of_line: bool,
+}
+
+/// How an attempt to match a rule failed.
+#[derive(Debug, Clone)]
+struct FailedAttempt {
+    depth: usize,
+    error: ParseError,
+}
+
 #[derive(Debug)]
 pub struct NonUniqueNameError;
 
diff --git a/src/parsing/rule/impls/definition_list.rs b/src/parsing/rule/impls/definition_list.rs
index f028f38..219b075 100644
--- a/src/parsing/rule/impls/definition_list.rs
+++ b/src/parsing/rule/impls/definition_list.rs
@@ -50,6 +50,9 @@ fn skip_newline<'r, 't>(
     }
 }
 
+/// Name for attempts to continue with another item.
+const NEXT_ITEM: &str = "definition-list-next";
+
 fn parse_definition_list<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
@@ -66,7 +69,7 @@ fn parse_definition_list<'r, 't>(
 
     // Collect remainder, halting if there's a failure
     if !at_end {
-        loop {
+        while parser.failed_attempt(NEXT_ITEM).is_none() {
             let mark = parser.mark_shared_items();
             let sub_parser = &mut parser.clone();
 
@@ -89,6 +92,7 @@ fn parse_definition_list<'r, 't>(
                 Err(error) => {
                     warn!("Failed to get the next definition list item, ending iteration: {error:?}");
                     parser.discard_shared_items(mark);
+                    parser.push_failed_attempt(NEXT_ITEM, &error);
                     break;
                 }
             }
diff --git a/src/parsing/rule/impls/header.rs b/src/parsing/rule/impls/header.rs
index 9dfc859..83c8a60 100644
--- a/src/parsing/rule/impls/header.rs
+++ b/src/parsing/rule/impls/header.rs
@@ -27,6 +27,9 @@ pub const RULE_HEADER: Rule = Rule {
     try_consume_fn,
 };
 
+/// Name for attempts to continue with another heading.
+const NEXT_HEADING: &str = "header-next";
+
 fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
@@ -42,7 +45,7 @@ fn try_consume_fn<'r, 't>(
     // which we need to trigger the next header when using regular rules.
     //
     // If it's not a heading, then its tokens must not be consumed.
-    loop {
+    while parser.failed_attempt(NEXT_HEADING).is_none() {
         let mark = parser.mark_shared_items();
         let sub_parser = &mut parser.clone();
 
@@ -59,6 +62,7 @@ fn try_consume_fn<'r, 't>(
             Err(error) => {
                 trace!("Failed to get the next heading, ending iteration: {error:?}");
                 parser.discard_shared_items(mark);
+                parser.push_failed_attempt(NEXT_HEADING, &error);
                 break;
             }
         }
diff --git a/src/parsing/rule/impls/table.rs b/src/parsing/rule/impls/table.rs
index 1bd7ef1..5445fab 100644
--- a/src/parsing/rule/impls/table.rs
+++ b/src/parsing/rule/impls/table.rs
@@ -36,6 +36,9 @@ pub const RULE_TABLE: Rule = Rule {
     try_consume_fn,
 };
 
+/// Name for attempts to continue with another row.
+const NEXT_ROW: &str = "table-next-row";
+
 fn try_consume_fn<'r, 't>(
     parser: &mut Parser<'r, 't>,
 ) -> ParseResult<'r, 't, Elements<'t>> {
@@ -64,10 +67,12 @@ fn try_consume_fn<'r, 't>(
         }
 
         macro_rules! finish_table {
-            () => {
+            () => {{
+                let error = parser.make_err(ParseErrorKind::RuleFailed);
+
                 if rows.is_empty() {
                     // No rows were successfully parsed, fail.
-                    return Err(parser.make_err(ParseErrorKind::RuleFailed));
+                    return Err(error);
                 } else {
                     // At least one row was created, end it here.
                     //
@@ -76,9 +81,15 @@ fn try_consume_fn<'r, 't>(
                     parser.update(&row_start);
                     parser.discard_shared_items(row_mark);
                     errors.truncate(row_errors);
+                    parser.push_failed_attempt(NEXT_ROW, &error);
                     break 'table;
                 }
-            };
+            }};
+        }
+
+        // Check that this row wasn't already tried
+        if !rows.is_empty() && parser.failed_attempt(NEXT_ROW).is_some() {
+            break 'table;
         }
 
         // Loop for each cell in the row
diff --git a/src/parsing/rule/mod.rs b/src/parsing/rule/mod.rs
index 5d204f9..1b1aa61 100644
--- a/src/parsing/rule/mod.rs
+++ b/src/parsing/rule/mod.rs
@@ -66,6 +66,12 @@ impl Rule {
             }
         }
 
+        // Check that this wasn't already tried.
+        if let Some(error) = parser.failed_attempt(self.name) {
+            debug!("Parse rule {} is known to fail here", self.name);
+            return Err(error);
+        }
+
         // Fork parser and try running the rule.
         let mark = parser.mark_shared_items();
         let mut sub_parser = parser.clone_with_rule(self);
@@ -75,13 +81,16 @@ impl Rule {
             Ok(output)
         });
 
-        match result {
+        match &result {
             // Finally, save the parser state since it succeeded.
             Ok(_) => parser.update(&sub_parser),
 
             // The elements are discarded, so anything they gathered
             // (e.g. footnotes) must be discarded as well.
-            Err(_) => parser.discard_shared_items(mark),
+            Err(error) => {
+                parser.discard_shared_items(mark);
+                parser.push_failed_attempt(self.name, error);
+            }
         }
 
         result
-- 
2.43.0


From 94757c540d299bc777b7a8f0fd06de73b9140241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:39 +0000
Subject: [PATCH 31/33] fix: a blank site is no site

---
 src/data/page_ref.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/data/page_ref.rs b/src/data/page_ref.rs
index e4156cb..ce89b86 100644
--- a/src/data/page_ref.rs
+++ b/src/data/page_ref.rs
@@ -108,6 +108,11 @@ impl<'t> PageRef<'t> {
                 let site = s[1..idx].trim();
                 let page = s[idx + 1..].trim();
 
+                // Blank site name, e.g. ": :something"
+                if site.is_empty() {
+                    return Err(PageRefParseError);
+                }
+
                 PageRef::page_and_site(site, page)
             }
 
-- 
2.43.0


From 973f379697fb9edef8b2607cefc1ad7b390d8b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:00 +0000
Subject: [PATCH 32/33] fix: the target attribute of the current frame is _self

---
 src/tree/anchor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree/anchor.rs b/src/tree/anchor.rs
index 9ed708a..b99ea0b 100644
--- a/src/tree/anchor.rs
+++ b/src/tree/anchor.rs
@@ -56,7 +56,7 @@ impl AnchorTarget {
             AnchorTarget::NewTab => "_blank",
             AnchorTarget::Parent => "_parent",
             AnchorTarget::Top => "_top",
-            AnchorTarget::Same => "_same",
+            AnchorTarget::Same => "_self",
         }
     }
 }
-- 
2.43.0


From 48711c3d53ecf159cf16b0ec0e9e3dedb36898a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:19 +0000
Subject: [PATCH 33/33] fix: a list block of only blanks is empty

---
 src/parsing/rule/impls/block/blocks/list.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parsing/rule/impls/block/blocks/list.rs b/src/parsing/rule/impls/block/blocks/list.rs
index 85d6cec..94c72cd 100644
--- a/src/parsing/rule/impls/block/blocks/list.rs
+++ b/src/parsing/rule/impls/block/blocks/list.rs
@@ -128,11 +128,6 @@ fn parse_list_block<'r, 't>(
             strip_newlines(&mut elements);
         }
 
-        // Empty lists aren't allowed
-        if elements.is_empty() {
-            return Err(parser.make_err(ParseErrorKind::ListEmpty));
-        }
-
         // Convert and extract list elements
         for element in elements {
             match element {
@@ -164,6 +159,11 @@ fn parse_list_block<'r, 't>(
             }
         }
 
+        // Empty lists aren't allowed
+        if items.is_empty() {
+            return Err(parser.make_err(ParseErrorKind::ListEmpty));
+        }
+
         items
     };
 
-- 
2.43.0

