From f7eb8e5f2a150867a105aa7368a148afaf6a4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 01/21] fix: accept dynamic (expression) ranges and empty value
 tables in the JSON schema

Tables describing dynamic lists yield ranges whose bounds are strings and a
value table may end up without any fields, --validate-json rejected both.
---
 src/spex/resources/stage2.schema.json | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/spex/resources/stage2.schema.json b/src/spex/resources/stage2.schema.json
index c7eaea1..9eff4e5 100644
--- a/src/spex/resources/stage2.schema.json
+++ b/src/spex/resources/stage2.schema.json
@@ -101,8 +101,7 @@
                     }
                   },
                   "required": ["val", "label"]
-                },
-                "minItems": 1
+                }
               }
             },
             "required": [
@@ -150,6 +149,18 @@
                             }
                           }
                         },
+                        {
+                          "description": "a range whose bounds are expressions, e.g. in tables describing a dynamic list",
+                          "type": "object",
+                          "properties": {
+                            "low": {
+                              "type": "string"
+                            },
+                            "high": {
+                              "type": "string"
+                            }
+                          }
+                        },
                         {
                           "description": "special range signifying a gap in the data-structure's definition",
                           "type": "object",
-- 
2.43.0


From 7daba9728ca305a0c7fe9d27d1657f4458c4b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 02/21] fix: rows without own cells and header rows consume
 rowspans

A row whose cells are all covered by cells spanning from above was not counted,
the spanning cells were then inserted into the following row, shifting its cells.
---
 src/spex/jsonspec/rowiter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/rowiter.py b/src/spex/jsonspec/rowiter.py
index f20fc82..91e4b04 100644
--- a/src/spex/jsonspec/rowiter.py
+++ b/src/spex/jsonspec/rowiter.py
@@ -82,14 +82,18 @@ def alst_repr(alst: List[ALST]) -> str:
 
 
 def row_iter(tbl: Element) -> Iterator[Element]:
-    it = Xpath.elems(tbl, "./tr/td[1]/parent::tr | ./tr/th[1]/parent::tr")
-    # it = Xpath.elems(tbl, "./tr/td[1]/parent::tr")
+    it = Xpath.elems(tbl, "./tr")
     alst: List[ALST] = []
 
     row_cnt = 1
     for row in it:
         if contains_th(row):
             yield row
+            alst = alst_count_decr(alst)
+            continue
+        if Xpath.elem_first(row, "./td") is None:
+            # all cells of this row, if any, span from above
+            alst = alst_count_decr(alst)
             continue
         if alst:
             row_ = row
-- 
2.43.0


From 61f8cc50782667615710a1d87aff5dcc466af89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 03/21] fix: retain reserved/obsolete rows whose label, but not
 content, is special

Such rows (e.g. with a dedicated attribute column) were silently dropped.
---
 src/spex/jsonspec/extractors/structtable.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index 926ebee..fd64fb1 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -175,7 +175,11 @@ class StructTableExtractor(FigureExtractor, ABC):
                 if self.is_special_case(range_field):
                     continue
                 elif field := self.handle_special_case(
-                    content=content_field,
+                    content=(
+                        content_field
+                        if self.is_special_case(content_field)
+                        else label_field
+                    ),
                     range=self._parse_range(range_field, range_field),
                 ):
                     fields.append(field)
-- 
2.43.0


From ae9f1bb9bb2958398acaa69c871d2ed574c6d583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 04/21] fix: compare each field to its predecessor when
 checking the row order

prev_range was never advanced, fields were compared to the first of the run only.
---
 src/spex/jsonspec/extractors/structtable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/spex/jsonspec/extractors/structtable.py b/src/spex/jsonspec/extractors/structtable.py
index fd64fb1..829e60b 100644
--- a/src/spex/jsonspec/extractors/structtable.py
+++ b/src/spex/jsonspec/extractors/structtable.py
@@ -246,8 +246,7 @@ class StructTableExtractor(FigureExtractor, ABC):
                 ):
                     self.add_issue(LintErr.TBL_ROW_ORDER_REVERSED)
                     return
-            else:
-                prev_range = field_range
+            prev_range = field_range
 
         labels = {fields[0]["label"]}
         prev_range = field_get_range(fields[0])
-- 
2.43.0


From f38d0415a6450828a9506ec845909419546c3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 05/21] fix: do not silently drop value table rows which lack
 the value or content cell

The policy returned by row_err_handler was ignored. Treat such rows as in struct
tables: rows of a single cell are skipped, others are a parse error.
---
 src/spex/jsonspec/extractors/valuetable.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/spex/jsonspec/extractors/valuetable.py b/src/spex/jsonspec/extractors/valuetable.py
index d4c50c6..ad8ca7e 100644
--- a/src/spex/jsonspec/extractors/valuetable.py
+++ b/src/spex/jsonspec/extractors/valuetable.py
@@ -88,9 +88,13 @@ class ValueTableExtractor(FigureExtractor):
                 elif row_txt.startswith("notes:"):
                     break
                 else:
-                    yield from self.row_err_handler(row_it, row, fields, e)
-                    # TODO: have to observe the return value
-                    continue
+                    out = yield from self.row_err_handler(row_it, row, fields, e)
+                    if out == RowErrPolicy.Stop:
+                        break
+                    elif out == RowErrPolicy.Raise:
+                        raise e
+                    else:
+                        continue
 
             val_cleaned = self.val_clean(row, row_val)
             if val_cleaned == ELLIPSIS:
@@ -186,6 +190,9 @@ class ValueTableExtractor(FigureExtractor):
 
         This hook is useful only for individual table overrides to catch special cases.
         """
+        if len(Xpath.elems(row, "./td")) == 1:
+            # There is only one column in the whole row
+            return RowErrPolicy.Continue
         yield from ()  # To turn method into a generator
         return RowErrPolicy.Raise
 
-- 
2.43.0


From 8a7c1728bc5e97a3b7276df9bed1a42e331cfcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 06/21] fix: do not underline or strike through runs which
 disable it explicitly

---
 src/spex/htmlspec/docx/runproperties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index d01644d..769e06b 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -173,9 +173,9 @@ class RunProperties:
         # underline and strikethrough (line-through) are governed by the same
         # css property.
         txt_dec_line = []
-        if self.__underline is not None:
+        if self.__underline:
             txt_dec_line.append("underline")
-        if self.__strikethrough is not None:
+        if self.__strikethrough:
             txt_dec_line.append("line-through")
         if txt_dec_line:
             attrs["text-decoration-line"] = " ".join(txt_dec_line)
-- 
2.43.0


From 254b4f4c970fdf824aea8142841968055b716214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 07/21] fix: escape title, revision and file name in the head
 of the HTML model

---
 src/spex/htmlspec/htmlrenderer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 81e6e16..9366a1f 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -134,14 +134,15 @@ class SpexHtmlRenderer:
         s.emitln("<head>").indent()
         title = self._document.header.title
         revision = self._document.header.revision
-        s.emit(f'<meta charset="utf-8" data-spec="{title}"')
+        s.emit(f'<meta charset="utf-8" data-spec="{html_escape(title)}"')
         if revision is not None:
-            s.emit(f' data-revision="{revision}"')
+            s.emit(f' data-revision="{html_escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        s.emitln(f"<title>{self._fname}</title>")
+        s.emitln(f"<title>{html_escape(self._fname)}</title>")
         s.add_section(self._html_head)
-        s.emitln(f'<link rel="stylesheet" href="{self._fname}.css"/>')
+        css_href = html_escape(self._css_path.name)
+        s.emitln(f'<link rel="stylesheet" href="{css_href}"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
         s.add_section(self._html_body)
-- 
2.43.0


From 229943a4e128d82629c4572097811b051aa3bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 08/21] fix: keep uploaded documents inside the temporary
 directory

---
 src/spexsrv/application/app.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index 542d847..d53bd67 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -169,9 +169,14 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
 
     spec = files["document"]
 
+    # the name is chosen by the client, never let it point outside of `temp_dir`
+    filename = Path(spec.filename).name
+    if filename in ("", "..") or "\0" in filename:
+        return "invalid file name", 422, {}
+
     temp_dir = tempfile.TemporaryDirectory()
     temp_dir_path = Path(temp_dir.name)
-    destination = temp_dir_path / spec.filename
+    destination = temp_dir_path / filename
 
     await spec.save(destination)
     hash = md5sum(destination)
-- 
2.43.0


From ce70f24c5608596f889cc782beef8550019a5d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 09/21] fix: do not overwrite the cached report of another
 document of the same name

---
 src/spexsrv/application/app.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index d53bd67..e038b14 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -205,11 +205,11 @@ async def spec_parse() -> Response | Tuple[str, int, Dict[Any, Any]]:
                 json_fpath = e.value
                 html_path = Path(json_fpath.with_suffix(".html"))
 
-                cache_entry = Path(app.config[SPEX_CACHE_TMPDIR].name) / json_fpath.name
+                # name entries by hash, documents may share the same file name
+                cache_dir = Path(app.config[SPEX_CACHE_TMPDIR].name)
+                cache_entry = cache_dir / f"{hash}.json"
                 shutil.copy(json_fpath, cache_entry)
-                shutil.copy(
-                    html_path, Path(app.config[SPEX_CACHE_TMPDIR].name) / html_path.name
-                )
+                shutil.copy(html_path, cache_entry.with_suffix(".html"))
                 app.config[SPEX_CACHE_LOOKUP][hash] = cache_entry
                 yield json_to_sse({"type": "report-completed", "url": report_url})
         finally:
-- 
2.43.0


From 543ecf9787ea38f87a09918723f01dfb23263590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 10/21] fix: answer requests for unknown reports with 404

---
 src/spexsrv/application/app.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/spexsrv/application/app.py b/src/spexsrv/application/app.py
index e038b14..9d6cf23 100644
--- a/src/spexsrv/application/app.py
+++ b/src/spexsrv/application/app.py
@@ -111,11 +111,12 @@ async def index() -> str:
 async def report(hash: str) -> str:
     # TODO: enable this part again this actually looks for the document requested
     json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
 
     if json_fpath is None or not json_fpath.is_file():
         abort(404)
 
+    html_fpath = json_fpath.with_suffix(".html")
+
     with open(json_fpath) as fh:
         report_json = json.load(fh)
 
@@ -147,13 +148,18 @@ async def report(hash: str) -> str:
 
 @app.route("/json/<hash>")
 async def json_report(hash: str) -> Response:
-    json_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash))
+    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    if json_fpath is None:
+        abort(404)
     return await quart.helpers.send_file(json_fpath)
 
 
 @app.route("/html/<hash>")
 async def html_report(hash: str) -> Response:
-    html_fpath = Path(app.config[SPEX_CACHE_LOOKUP].get(hash)).with_suffix(".html")
+    json_fpath = app.config[SPEX_CACHE_LOOKUP].get(hash)
+    if json_fpath is None:
+        abort(404)
+    html_fpath = json_fpath.with_suffix(".html")
     return await quart.helpers.send_file(html_fpath)
 
 
-- 
2.43.0


From 5c9a590c551ad5a6a1b8da45c54224d6f25979b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 11/21] fix: skip tables without rows instead of aborting the
 document

---
 src/spex/jsonspec/document.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 4e31b50..80b6e83 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -193,7 +193,10 @@ class DocumentParser:
             if inner_tbl is not None and inner_tbl.tag == "table":
                 tbl = inner_tbl
 
-            fig_tr = Xpath.elem_first_req(tbl, "./tr[1]")
+            fig_tr = Xpath.elem_first(tbl, "./tr[1]")
+            if fig_tr is None:
+                # table without any rows, has no title and thus is no figure
+                continue
             # remove entire tr to simplify downstream processing between top-level and
             # nested figures.
             parent = fig_tr.getparent()
-- 
2.43.0


From 43abd7c2c701fbaa36e5850bd1144e10bf56ee91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 12/21] fix: honour skip-figure-on-error for figures whose
 columns do not suit their override

---
 src/spex/jsonspec/document.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spex/jsonspec/document.py b/src/spex/jsonspec/document.py
index 80b6e83..2352861 100644
--- a/src/spex/jsonspec/document.py
+++ b/src/spex/jsonspec/document.py
@@ -296,6 +296,13 @@ class DocumentParser:
             # extractor_cls not None, class gotten from override
             mapping = extractor_cls.can_apply(tbl_hdrs)
             if mapping is None:
+                if self.args.skip_fig_on_error and "parent_fig_id" not in entity:
+                    self.linter.add_issue(
+                        LintErr.TBL_PARSE_ERR,
+                        fig_id,
+                        ctx={"title": entity["title"]} if "title" in entity else None,
+                    )
+                    return
                 raise RuntimeError(
                     "override class failed to detect columns to extract from"
                 )
-- 
2.43.0


From 544590920e17bf6354c153d03eb2590ae4726413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 13/21] fix: do not resolve external entities of input
 documents

---
 src/spex/htmlspec/docx/docxutils.py    |  4 +++-
 src/spex/jsonspec/parse.py             |  4 ++--
 src/spex/xml.py                        | 17 ++++++++++++++++-
 src/spexsrv/application/report_view.py |  4 ++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/spex/htmlspec/docx/docxutils.py b/src/spex/htmlspec/docx/docxutils.py
index 32c7b94..158f9fe 100644
--- a/src/spex/htmlspec/docx/docxutils.py
+++ b/src/spex/htmlspec/docx/docxutils.py
@@ -8,6 +8,8 @@ from typing import IO
 
 from lxml import etree
 
+from spex.xml import xml_parser
+
 
 def docx_extract_contents(
     docx_path: Path, file: str = "word/document.xml"
@@ -15,4 +17,4 @@ def docx_extract_contents(
     with zipfile.ZipFile(docx_path, "r") as zfile:
         fh: IO[bytes]
         with zfile.open(file) as fh:
-            return etree.fromstring(fh.read())
+            return etree.fromstring(fh.read(), xml_parser())
diff --git a/src/spex/jsonspec/parse.py b/src/spex/jsonspec/parse.py
index 0a03ced..ca6f28b 100644
--- a/src/spex/jsonspec/parse.py
+++ b/src/spex/jsonspec/parse.py
@@ -10,7 +10,7 @@ from typing import Optional
 from spex.jsonspec.document import DocumentParser
 from spex.jsonspec.parserargs import ParserArgs
 from spex.jsonspec.quirks import QUIRKS_MAP, QuirksMap
-from spex.xml import ElementTree, Xpath, etree
+from spex.xml import ElementTree, Xpath, etree, xml_parser
 
 
 @dataclass(frozen=True)
@@ -50,7 +50,7 @@ def html_to_spec_doc(html_doc: str) -> SpecDocument:
         SpecDocument: A wrapper that returns a parser and holds meta data on the
         specification
     """
-    doc = etree.parse(io.StringIO(html_doc))
+    doc = etree.parse(io.StringIO(html_doc), xml_parser())
 
     doc_spec = Xpath.attr_first_req(doc, "./head/meta/@data-spec").lower()
     doc_rev = Xpath.attr_first_req(doc, "./head/meta/@data-revision").lower()
diff --git a/src/spex/xml.py b/src/spex/xml.py
index c1afbcb..03710cc 100644
--- a/src/spex/xml.py
+++ b/src/spex/xml.py
@@ -17,6 +17,13 @@ ElementTree = _ElementTree
 XmlElem = Union[_Element, _ElementTree]
 
 
+def xml_parser() -> etree.XMLParser:
+    """return parser for documents, which are untrusted input.
+
+    Entities are not resolved, they may refer to other files."""
+    return etree.XMLParser(resolve_entities=False)
+
+
 class XmlUtils:
     @staticmethod
     def fmt(elem: XmlElem) -> str:
@@ -126,4 +133,12 @@ class Xpath:
         return res[0]
 
 
-__all__ = ["etree", "Element", "ElementTree", "XmlElem", "Xpath", "XmlUtils"]
+__all__ = [
+    "etree",
+    "Element",
+    "ElementTree",
+    "XmlElem",
+    "Xpath",
+    "XmlUtils",
+    "xml_parser",
+]
diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 26b377d..503cce7 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -8,11 +8,11 @@ from typing import Dict, List
 import lxml
 import lxml.etree
 
-from spex.xml import XmlUtils, Xpath, etree
+from spex.xml import XmlUtils, Xpath, etree, xml_parser
 
 
 def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
-    doc = etree.parse(html_doc)
+    doc = etree.parse(html_doc, xml_parser())
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-- 
2.43.0


From 3217f4e6f46627ce0db4ae35a57b8f84cd86af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:18 +0000
Subject: [PATCH 14/21] fix: do not drop text of runs and hyperlinks after
 their first part

---
 src/spex/htmlspec/parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spex/htmlspec/parser.py b/src/spex/htmlspec/parser.py
index 5755a2a..858220f 100644
--- a/src/spex/htmlspec/parser.py
+++ b/src/spex/htmlspec/parser.py
@@ -212,17 +212,18 @@ class SpexParser:
             if child.tag == Tag.r.value:
                 yield child
             elif child.tag == Tag.hyperlink.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+                yield from Xpath.elems(child, "./w:r")
             elif child.tag == Tag.fldSimple.value:
-                yield Xpath.elem_first_req(child, "./w:r")
+                yield from Xpath.elems(child, "./w:r")
 
     def _parse_spans(self, p: _Element) -> Iterator[Span]:
         for r in self._select_runs(p):
-            txt = Xpath.elem_first(r, "./w:t")
-            if txt is None or txt.text is None:
-                continue
-            r_rpr = self._document.extract_r_rpr(r)
-            yield Span(style=r_rpr, text=txt.text)
+            # a run holds several w:t if its text contains breaks, tabs, etc.
+            for txt in Xpath.elems(r, "./w:t"):
+                if txt.text is None:
+                    continue
+                r_rpr = self._document.extract_r_rpr(r)
+                yield Span(style=r_rpr, text=txt.text)
 
     def _parse_table(self, stream: Stream[_Element]) -> Optional[Table]:
         tbl = stream.consume()
-- 
2.43.0


From bdcff59458d6eae9af21e57b5732f89ac42c5b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 15/21] fix: runs may disable a property with false or off as
 well

---
 src/spex/htmlspec/docx/runproperties.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/runproperties.py b/src/spex/htmlspec/docx/runproperties.py
index 769e06b..62906bd 100644
--- a/src/spex/htmlspec/docx/runproperties.py
+++ b/src/spex/htmlspec/docx/runproperties.py
@@ -210,11 +210,12 @@ class RunProperties:
             #   not explicitly disable the prop either.
             # if present w/o w:val attr -> True
             # if present with w:val attr -> "1" is True, "0" is false
+            #   ("true"/"false" and "on"/"off" are accepted as well)
             r1 = Xpath.elem_first(e, selector)
             if r1 is None:
                 return None
             r2 = Xpath.attr_first(r1, "./@w:val")
-            return r2 is None or r2.strip() != "0"
+            return r2 is None or r2.strip() not in ("0", "false", "off")
 
         def u_val(e: _Element) -> Optional[bool]:
             r1 = Xpath.elem_first(e, "./w:u")
-- 
2.43.0


From 25c2a92709b0a2f852eef746443c57fd0ef73972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:47 +0000
Subject: [PATCH 16/21] fix: accept explicit continuation of vertically merged
 cells

---
 src/spex/htmlspec/docx/tablewrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/tablewrap.py b/src/spex/htmlspec/docx/tablewrap.py
index e6bc9ca..c4b9603 100644
--- a/src/spex/htmlspec/docx/tablewrap.py
+++ b/src/spex/htmlspec/docx/tablewrap.py
@@ -52,7 +52,7 @@ class TableWrap:
                 return VerticalMergeState.NONE
             assert isinstance(merge_elem, _Element)
             row_val = Xpath.attr_first(merge_elem, "@w:val")
-            if row_val:
+            if row_val and row_val != "continue":
                 assert row_val == "restart"
                 return VerticalMergeState.RESTART
             else:
-- 
2.43.0


From be0d8924a90ae94a8dbbe622649e24c5a840a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 17/21] fix: retain line breaks within text of the docx

---
 src/spex/htmlspec/htmlrenderer.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/spex/htmlspec/htmlrenderer.py b/src/spex/htmlspec/htmlrenderer.py
index 9366a1f..1af18f4 100644
--- a/src/spex/htmlspec/htmlrenderer.py
+++ b/src/spex/htmlspec/htmlrenderer.py
@@ -25,6 +25,13 @@ from spex.htmlspec.parser import (
 ProgressStatus: TypeAlias = Tuple[int, int]  # processing figure X of Y figures
 
 
+def escape(text: str) -> str:
+    """escape text for use in HTML.
+
+    NOTE: line breaks are escaped too, sections do not retain them."""
+    return html_escape(text).replace("\n", "&#10;")
+
+
 # TODO: nicer way of using `write_file` ?
 class SpexHtmlRenderer:
     def __init__(self, docx_path: Path, out_dir: Optional[Path] = None):
@@ -134,14 +141,14 @@ class SpexHtmlRenderer:
         s.emitln("<head>").indent()
         title = self._document.header.title
         revision = self._document.header.revision
-        s.emit(f'<meta charset="utf-8" data-spec="{html_escape(title)}"')
+        s.emit(f'<meta charset="utf-8" data-spec="{escape(title)}"')
         if revision is not None:
-            s.emit(f' data-revision="{html_escape(revision)}"')
+            s.emit(f' data-revision="{escape(revision)}"')
         s.emitln("/>")
         s.emitln(f'<meta name="spexVersion" content="{__version__}" />')
-        s.emitln(f"<title>{html_escape(self._fname)}</title>")
+        s.emitln(f"<title>{escape(self._fname)}</title>")
         s.add_section(self._html_head)
-        css_href = html_escape(self._css_path.name)
+        css_href = escape(self._css_path.name)
         s.emitln(f'<link rel="stylesheet" href="{css_href}"/>')
         s.dedent().emitln("</head>")
         s.emitln("<body>").indent()
@@ -167,7 +174,7 @@ class SpexHtmlRenderer:
         s.dedent().emitln("</p>")
 
     def _render_span(self, s: Section, span: Span) -> None:
-        txt = html_escape(span.text)
+        txt = escape(span.text)
         if span.style is not None:
             clsname = self._css_txtfmt_cache.get_clsname(span.style)
         else:
-- 
2.43.0


From 6738ff4006c9bd32b27a464255d4445fb446e353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 18/21] fix: aliases of styles do not hide styles with that id

---
 src/spex/htmlspec/docx/styles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/styles.py b/src/spex/htmlspec/docx/styles.py
index 1a5e56f..86f6fc8 100644
--- a/src/spex/htmlspec/docx/styles.py
+++ b/src/spex/htmlspec/docx/styles.py
@@ -26,15 +26,17 @@ class StyleResolver:
     @staticmethod
     def __init_alias_dct(style_doc: _Element, style_type: str) -> Dict[str, str]:
         alias_dct: Dict[str, str] = {}
+        style_ids: Dict[str, str] = {}
         for style in Xpath.elems(style_doc, f"./w:style[@w:type = '{style_type}']"):
             canonical_style_name = Xpath.attr_first_req(style, "@w:styleId")
-            alias_dct[canonical_style_name] = canonical_style_name
+            style_ids[canonical_style_name] = canonical_style_name
 
             aliases = Xpath.attr_first(style, "./w:aliases/@w:val") or ""
             for alias in (a.strip() for a in aliases.split(",")):
                 alias_dct[alias] = canonical_style_name
 
-        return alias_dct
+        # an alias never hides the style with that id
+        return {**alias_dct, **style_ids}
 
     @lru_cache(maxsize=60)
     def __get_style(self, style_id: str) -> Optional[RunProperties]:
-- 
2.43.0


From 481ec32a3dcee8982027177f3852f7b64a437a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 19/21] fix: report shows figures by their exact id

---
 src/spexsrv/application/report_view.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/spexsrv/application/report_view.py b/src/spexsrv/application/report_view.py
index 503cce7..9547ef3 100644
--- a/src/spexsrv/application/report_view.py
+++ b/src/spexsrv/application/report_view.py
@@ -5,9 +5,6 @@
 from pathlib import Path
 from typing import Dict, List
 
-import lxml
-import lxml.etree
-
 from spex.xml import XmlUtils, Xpath, etree, xml_parser
 
 
@@ -16,11 +13,10 @@ def get_erroneous_figures(figures: List[str], html_doc: Path) -> Dict[str, str]:
     _err_figures: Dict[str, str] = {}
     for figure in figures:
         figure_id = figure.split("_")[0]
-        try:
-            p = Xpath.elem_first(doc, f"./body/table[@id={figure_id}]")
-            if p is not None:
+        for p in Xpath.elems(doc, "./body/table[@id]"):
+            # NOTE: ids need not be numbers, e.g. "7-2"
+            if p.get("id") == figure_id:
                 _err_figures[figure] = XmlUtils.fmt(p)
-        except lxml.etree.XPathEvalError:
-            ...
+                break
 
     return _err_figures
-- 
2.43.0


From 26c6c5a2f870f0a23134516cb50228c86057664e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 20/21] fix: do not stop in the debugger for numbering style 0

---
 src/spex/htmlspec/docx/numbering.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index 678da38..a1e15f2 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -111,8 +111,6 @@ class NumberingDocument:
         return int(num_id) in self._num_to_abs_num
 
     def get_style(self, num_id: Union[str, int]) -> AbstractNum:
-        if int(num_id) == 0:
-            breakpoint()
         return self._abstract_nums[self._num_to_abs_num[int(num_id)]]
         # return self.__abstract_nums[int(num_id)]
 
-- 
2.43.0


From a7bc465db9ffee298fb7893a278242c97498756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:35 +0000
Subject: [PATCH 21/21] fix: find the level of a numbering style by its number,
 not by its position

---
 src/spex/htmlspec/docx/numbering.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spex/htmlspec/docx/numbering.py b/src/spex/htmlspec/docx/numbering.py
index a1e15f2..78b3c21 100644
--- a/src/spex/htmlspec/docx/numbering.py
+++ b/src/spex/htmlspec/docx/numbering.py
@@ -94,7 +94,11 @@ class AbstractNum:
     ilvls: List[AbstractNumLvl]
 
     def get_ilvl(self, ilvl: Union[str, int]) -> AbstractNumLvl:
-        return self.ilvls[int(ilvl)]
+        level = int(ilvl)
+        for lvl in self.ilvls:
+            if lvl.ilvl == level:
+                return lvl
+        raise IndexError(f"numbering style has no level {level}")
 
 
 class NumberingDocument:
-- 
2.43.0

