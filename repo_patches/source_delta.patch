From b43fefb8e055969216d94fd00c663f79c218c6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:19 +0000
Subject: [PATCH 01/27] fix: escape plain attribute values for attributes when
 merging with HTML()

---
 htmltools/_core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 405b6ce..6db23a9 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -555,7 +555,14 @@ class TagAttrDict(Dict[str, "str | HTML"]):
                 nm = self._normalize_attr_name(k)
 
                 if nm in attrz:
-                    val = attrz[nm] + " " + val
+                    prev = attrz[nm]
+                    # HTML() values are written as is, so a plain value has to be
+                    # escaped for use in an attribute before it is merged with one.
+                    if isinstance(prev, HTML) and not isinstance(val, HTML):
+                        val = HTML(html_escape(val, attr=True))
+                    elif isinstance(val, HTML) and not isinstance(prev, HTML):
+                        prev = HTML(html_escape(prev, attr=True))
+                    val = prev + " " + val
 
                 attrz[nm] = val
 
-- 
2.43.0


From 1a80ab15f4299afc48d8037d674958fcc9c32910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:16 +0000
Subject: [PATCH 02/27] fix: HTMLDocument expands its content first and leaves
 the user's <html> tag alone

---
 htmltools/_core.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 6db23a9..c4b897b 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1145,7 +1145,9 @@ class HTMLDocument:
     def _gen_html_tag_tree(
         self, lib_prefix: Optional[str], include_version: bool
     ) -> Tag:
-        content: TagList = self._content
+        # Expand the content first: an object may expand to the <html> or <body> tag, and
+        # this way the user's own tags aren't modified below.
+        content: TagList = self._content.tagify()
         html: Tag
         body: Tag
 
@@ -1156,7 +1158,6 @@ class HTMLDocument:
         ):
             html = cast(Tag, content[0])
             html.attrs.update(**self._html_attr_args)
-            html = html.tagify()
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
 
@@ -1169,8 +1170,6 @@ class HTMLDocument:
         else:
             body = Tag("body", content)
 
-        body = body.tagify()
-
         html = Tag("html", Tag("head"), body, _add_ws=True, **self._html_attr_args)
         html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
         return html
-- 
2.43.0


From 8e55bdbb7e422cc0aa912da674a5f1a408ae71ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:18 +0000
Subject: [PATCH 03/27] fix: copies of HTMLDependency objects (as made by
 tagify) are independent

---
 htmltools/_core.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index c4b897b..35c62f3 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1806,6 +1806,19 @@ class HTMLDependency(MetadataNode):
                     + f"{self.name}-{self.version}"
                 )
 
+    def __copy__(self) -> "HTMLDependency":
+        # As with any MetadataNode, the copy has to be independent of the original.
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        for key, value in self.__dict__.items():
+            if isinstance(value, (TagList, Tag)):
+                cp.__dict__[key] = _copy_tags(value)
+            elif isinstance(value, (list, dict)):
+                cp.__dict__[key] = deepcopy(value)
+            else:
+                cp.__dict__[key] = value
+        return cp
+
     def __repr__(self):
         return f'<HTMLDependency "{self.name}-{self.version}">'
 
@@ -1990,6 +2003,20 @@ def _tag_show(
     raise Exception(f"Unknown renderer {renderer}")
 
 
+# Copy a TagList or Tag, and all of the tags and metadata nodes in it.
+def _copy_tags(x: Any) -> Any:
+    if isinstance(x, Tag):
+        x = copy(x)
+        x.children = _copy_tags(x.children)
+    elif isinstance(x, TagList):
+        x = copy(x)
+        for i, child in enumerate(x):
+            x[i] = _copy_tags(child)
+    elif isinstance(x, MetadataNode):
+        x = copy(x)
+    return x
+
+
 def _normalize_text(txt: str | HTML) -> str:
     if isinstance(txt, HTML):
         return txt.as_string()
-- 
2.43.0


From f24ec7c0295e69304c33e2ff3ff395ec7a79fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:21 +0000
Subject: [PATCH 04/27] fix: == ignores whether a tag was used as a context
 manager

---
 htmltools/_core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 35c62f3..c68c9da 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -964,7 +964,8 @@ class Tag:
         _tag_show(self, renderer)
 
     def __eq__(self, other: Any) -> bool:
-        return _equals_impl(self, other)
+        # Having been used as a context manager doesn't make a tag a different one.
+        return _equals_impl(self, other, ignore=("prev_displayhook",))
 
     def __str__(self) -> str:
         return _render_tag_or_taglist(self)
@@ -2024,10 +2025,12 @@ def _normalize_text(txt: str | HTML) -> str:
         return html_escape(txt, attr=False)
 
 
-def _equals_impl(x: Any, y: Any) -> bool:
+def _equals_impl(x: Any, y: Any, ignore: tuple[str, ...] = ()) -> bool:
     if not isinstance(y, type(x)):
         return False
     for key in x.__dict__.keys():
+        if key in ignore:
+            continue
         if getattr(x, key, None) != getattr(y, key, None):
             return False
     return True
-- 
2.43.0


From 41ad02282aee653aa664c365cfec7ef8168d2483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:23 +0000
Subject: [PATCH 05/27] fix: neutralise </script in any letter case in
 serialized dependencies

---
 htmltools/_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index c68c9da..0853f67 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1696,8 +1696,9 @@ class HTMLDependency(MetadataNode):
 
         return Tag(
             "script",
-            # "</script>" in a script tag must be escaped
-            json.dumps(res, indent=indent).replace("</script>", "<\\/script>"),
+            # "</script" in a script tag must be escaped, in any letter case and even
+            # without the ">" (like in "</script >")
+            re.sub("</(?=script)", r"<\\/", json.dumps(res, indent=indent), flags=re.I),
             type="application/json",
             data_html_dependency=True,
         )
-- 
2.43.0


From 102d81b6db96705a087db6bb0341394c32a9cf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:25 +0000
Subject: [PATCH 06/27] fix: HTMLTextDocument doesn't modify the deps list it
 is given

---
 htmltools/_core.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 0853f67..8b76a36 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1272,9 +1272,8 @@ class HTMLTextDocument:
             )
 
         self._html = html
-        if deps is None:
-            deps = []
-        self._deps = deps
+        # Copy the list, because dependencies found in the text are added to it.
+        self._deps = [] if deps is None else list(deps)
 
         self._deps_replace_pattern = deps_replace_pattern
 
-- 
2.43.0


From 6016e32dc7a01b44947d152354de4c4f78c5b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:27 +0000
Subject: [PATCH 07/27] fix: TagList += normalises its operand like extend()

---
 htmltools/_core.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 8b76a36..3c75481 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -310,6 +310,14 @@ class TagList(UserList[TagNode]):
 
         return TagList(self, *item)
 
+    def __iadd__(self, item: Iterable[TagChild]) -> TagList:
+        """
+        Add the item at the end of this TagList.
+        """
+
+        self.extend(item)
+        return self
+
     def __radd__(self, item: Iterable[TagChild]) -> TagList:
         """
         Return a new TagList with the item added to the beginning.
-- 
2.43.0


From b6aa77138af0472ccddea8a628661e4a31956a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:29 +0000
Subject: [PATCH 08/27] fix: TagList + HTML() and extend(HTML()) keep the HTML
 string whole

---
 htmltools/_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 3c75481..b493e62 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -271,11 +271,11 @@ class TagList(UserList[TagNode]):
     <div id="foo" class="bar"></div>
     """
 
-    def _should_not_expand(self, x: object) -> TypeIs[str]:
+    def _should_not_expand(self, x: object) -> TypeIs[str | HTML]:
         """
         Check if an object should not be expanded into a list of children.
         """
-        return isinstance(x, str)
+        return isinstance(x, (str, HTML))
 
     def __init__(self, *args: TagChild) -> None:
         super().__init__(_tagchilds_to_tagnodes(args))
@@ -1953,7 +1953,7 @@ def consolidate_attrs(
 # Convert a list of TagChild objects to a list of TagNode objects. Does not alter input
 # object.
 def _tagchilds_to_tagnodes(x: Iterable[TagChild]) -> list[TagNode]:
-    if isinstance(x, str):
+    if isinstance(x, (str, HTML)):
         return [x]
 
     result = flatten(x)
-- 
2.43.0


From a927820894d1ba22bfcd0fc65c48ae7f024ddf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:31 +0000
Subject: [PATCH 09/27] fix: is_tag_child() accepts int

---
 htmltools/_core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index b493e62..f86eed4 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -207,6 +207,7 @@ def is_tag_child(x: object) -> TypeIs[TagChild]:
         (
             # TagNode, # Handled above
             TagList,
+            int,
             float,
             # None, # Handled above
             Sequence,
-- 
2.43.0


From fa0e770da27f38803a397aba8a22f8d211e5da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:33 +0000
Subject: [PATCH 10/27] fix: has_class/remove_class work on HTML() class values

---
 htmltools/_core.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index f86eed4..9ee63ba 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -790,14 +790,17 @@ class Tag:
             return self
 
         # Coerce and clean
-        class_ = str(class_).strip()
+        names = _class_spellings(str(class_).strip(), cls)
 
         # Remove the class value from the ordered set of class values
         # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val != class_]
+        new_classes = [cls_val for cls_val in cls.split() if cls_val not in names]
         if len(new_classes) > 0:
             # Store the new class value
-            self.attrs.update({"class": " ".join(new_classes)})
+            new_class = " ".join(new_classes)
+            self.attrs.update(
+                {"class": HTML(new_class) if isinstance(cls, HTML) else new_class}
+            )
         else:
             # If no class values remain, remove the class attribute
             self.attrs.pop("class")
@@ -819,7 +822,8 @@ class Tag:
         """
         cls = self.attrs.get("class")
         if cls:
-            return class_ in cls.split()
+            names = _class_spellings(str(class_), cls)
+            return any(cls_val in names for cls_val in cls.split())
         else:
             return False
 
@@ -986,6 +990,14 @@ class Tag:
         return str(self)
 
 
+# The ways a class name can be spelled in the class attribute value `cls`: if that is
+# HTML(), then plain class names were escaped when they were merged into it.
+def _class_spellings(class_: str, cls: str | HTML) -> list[str]:
+    if isinstance(cls, HTML):
+        return [class_, html_escape(class_, attr=True)]
+    return [class_]
+
+
 # Tags that have the form <tagname />
 _VOID_TAG_NAMES = {
     "area",
-- 
2.43.0


From c116e839576ba6cb4432215f4128fa2b2d022bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:35 +0000
Subject: [PATCH 11/27] fix: _repr_html_() may return HTML()

---
 htmltools/_core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 9ee63ba..4d78aeb 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -446,7 +446,10 @@ class TagList(UserList[TagNode]):
                 if prev_was_add_ws:
                     html_ += "  " * indent
 
-                html_ += child._repr_html_()  # pyright: ignore[reportPrivateUsage]
+                # Like HTML(), this could be something other than a str
+                html_ += str(
+                    child._repr_html_()  # pyright: ignore[reportPrivateUsage]
+                )
 
                 prev_was_add_ws = False
 
-- 
2.43.0


From 59635f13b6af60d7107632f1e79a27af62de496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:38 +0000
Subject: [PATCH 12/27] fix: reject a string given as script/stylesheet/meta
 item

---
 htmltools/_core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 4d78aeb..f86e691 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1815,6 +1815,9 @@ class HTMLDependency(MetadataNode):
                 shutil.copytree(src_file, target_file)
 
     def _validate_dicts(self, ld: Iterable[object], req_attr: list[str]) -> None:
+        if isinstance(ld, (str, bytes)):
+            # Not a list of items, but an item itself
+            ld = [ld]
         for d in ld:
             self._validate_dict(d, req_attr)
 
-- 
2.43.0


From 2354129a851ed1f048b4e5a5698330d2dfc07cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:40 +0000
Subject: [PATCH 13/27] fix: JSXTag.tagify() leaves the component unchanged

---
 htmltools/_jsx.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 02a1c9d..23bacf1 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -104,6 +104,13 @@ class JSXTag:
         self.attrs: JSXTagAttrDict = JSXTagAttrDict(**kwargs)
         self.children: TagList = TagList(*args)
 
+    def __copy__(self) -> JSXTag:
+        cls = self.__class__
+        cp = cls.__new__(cls)
+        # Like Tag.__copy__(): instance fields are shallow-copied.
+        cp.__dict__.update({key: copy.copy(val) for key, val in self.__dict__.items()})
+        return cp
+
     def extend(self, x: Iterable[TagNode]) -> None:
         self.children.extend(x)
 
@@ -121,20 +128,20 @@ class JSXTag:
         def tagify_tagifiable_and_get_metadata(x: Any) -> Any:
             if isinstance(x, Tagifiable) and not isinstance(x, (Tag, JSXTag)):
                 x = x.tagify()
-            else:
-                x = copy.copy(x)
+            # Copy, even if it's the result of x.tagify(), because that could be an
+            # object which x holds on to.
+            x = copy.copy(x)
             if isinstance(x, MetadataNode):
                 metadata_nodes.append(x)
             return x
 
-        cp = copy.copy(self)
-        _walk_attrs_and_children(cp, tagify_tagifiable_and_get_metadata)
+        cp = _walk_attrs_and_children(self, tagify_tagifiable_and_get_metadata)
 
         # When _render_react_js()  is called on a JSXTag object, we'll recurse, but
         # instead of calling the standard Tag.get_html_string() method to format the
         # object, we'll recurse using _render_react_js(), which descends into the tree
         # and formats objects appropriately for inside of a JSX element.
-        component = _render_react_js(self, 2, "\n")
+        component = _render_react_js(cp, 2, "\n")
 
         # Ideally, we'd use document.currentScript.after() to insert the component
         # directly after the script tag, but when dynamically rendered via jQuery (i.e.,
-- 
2.43.0


From 8f0680189bdeaa7dd93fed86d84c66e694d5d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:43 +0000
Subject: [PATCH 14/27] fix: a child of a JSX component may expand to a TagList

---
 htmltools/_jsx.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 23bacf1..1044efc 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -194,16 +194,14 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
     x = fn(x)
 
     if isinstance(x, Tag):
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
+        x.children = TagList(*[_walk_attrs_and_children(y, fn) for y in x.children])
     elif isinstance(x, JSXTag):
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
-        for i, child in enumerate(x.children):
-            x.children[i] = _walk_attrs_and_children(child, fn)
-    elif isinstance(x, Tagifiable):
-        # Don't do anything here?
-        pass
+        x.children = TagList(*[_walk_attrs_and_children(y, fn) for y in x.children])
+    elif isinstance(x, TagList):
+        # A Tagifiable object expanded to any number of nodes.
+        x = TagList(*[_walk_attrs_and_children(child, fn) for child in x])
 
     return x
 
-- 
2.43.0


From b3c22129ae6423f79c83efd8fbcf885b77bc5dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:45 +0000
Subject: [PATCH 15/27] fix: an empty allowedProps list allows no props

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 1044efc..b4e3f48 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -94,7 +94,7 @@ class JSXTag:
         if pieces[-1][:1] != pieces[-1][:1].upper():
             raise NotImplementedError("JSX tags must be start with a capital letter.")
 
-        if allowedProps:
+        if allowedProps is not None:
             for k in kwargs.keys():
                 if k not in allowedProps:
                     raise NotImplementedError(f"{k} is not a valid prop for {_name}")
-- 
2.43.0


From 3b680c954bfc9655e8083b1c5661ad4ffb4a35c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:48 +0000
Subject: [PATCH 16/27] fix: tagify and collect metadata in tags inside
 list/dict props

---
 htmltools/_jsx.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index b4e3f48..90b0858 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -199,6 +199,12 @@ def _walk_attrs_and_children(x: Any, fn: Callable[[Any], Any]) -> Any:
         for key, value in x.attrs.items():
             x.attrs[key] = _walk_attrs_and_children(value, fn)
         x.children = TagList(*[_walk_attrs_and_children(y, fn) for y in x.children])
+    elif isinstance(x, (list, tuple)):
+        # These are prop values, which can also contain tags.
+        x = [_walk_attrs_and_children(y, fn) for y in cast(Iterable[Any], x)]
+    elif isinstance(x, dict):
+        items = cast(Dict[Any, Any], x).items()
+        x = {key: _walk_attrs_and_children(value, fn) for key, value in items}
     elif isinstance(x, TagList):
         # A Tagifiable object expanded to any number of nodes.
         x = TagList(*[_walk_attrs_and_children(child, fn) for child in x])
-- 
2.43.0


From 46b4f7c99fac478075b245611b96d280952e2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:50 +0000
Subject: [PATCH 17/27] fix: escape double quotes in JSX prop names and dict
 keys

---
 htmltools/_jsx.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 90b0858..8aec5bc 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -247,7 +247,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
             v = _serialize_style_attr(v)
         else:
             v = _serialize_attr(v)
-        res += f'"{k}": {v}'
+        res += f"{_quote(k)}: {v}"
     res += "}"
 
     if len(x.children) == 0:
@@ -274,11 +274,17 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, dict):
         x1: dict[str, Any] = x  # make pyright happy
-        return "{" + ", ".join([f'"{y}": ' + _serialize_attr(x1[y]) for y in x1]) + "}"
+        return (
+            "{" + ", ".join([_quote(y) + ": " + _serialize_attr(x1[y]) for y in x1]) + "}"
+        )
     if isinstance(x, bool):
         return str(x).lower()
     if isinstance(x, (jsx, int, float)):
         return str(x)
+    return _quote(x)
+
+
+def _quote(x: object) -> str:
     return '"' + str(x).replace('"', '\\"') + '"'
 
 
-- 
2.43.0


From 222c8e53c3c9c8fc61afdf6ac9415bed1701616f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:53 +0000
Subject: [PATCH 18/27] fix: allow colons in the values of a JSX style string

---
 htmltools/_jsx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 8aec5bc..340ca94 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -295,7 +295,7 @@ def _serialize_style_attr(x: object) -> str:
     if isinstance(x, str):
         x = cast(
             "list[tuple[str, str]]",
-            [tuple(y.split(":")) for y in x.split(";") if re.search(":", y)],
+            [tuple(y.split(":", 1)) for y in x.split(";") if re.search(":", y)],
         )
         x = dict(x)
     if isinstance(x, dict):
-- 
2.43.0


From 6000f168931c39a95835e7906d50c89a710a199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:38 +0000
Subject: [PATCH 19/27] fix: has_class/remove_class split merged line breaks in
 HTML() class values

---
 htmltools/_core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index f86e691..18853a0 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -797,7 +797,7 @@ class Tag:
 
         # Remove the class value from the ordered set of class values
         # Note: .split() splits on any whitespace and removes empty strings
-        new_classes = [cls_val for cls_val in cls.split() if cls_val not in names]
+        new_classes = [val for val in _split_classes(cls) if val not in names]
         if len(new_classes) > 0:
             # Store the new class value
             new_class = " ".join(new_classes)
@@ -826,7 +826,7 @@ class Tag:
         cls = self.attrs.get("class")
         if cls:
             names = _class_spellings(str(class_), cls)
-            return any(cls_val in names for cls_val in cls.split())
+            return any(cls_val in names for cls_val in _split_classes(cls))
         else:
             return False
 
@@ -1001,6 +1001,14 @@ def _class_spellings(class_: str, cls: str | HTML) -> list[str]:
     return [class_]
 
 
+# The class names in the class attribute value `cls`. Likewise, line breaks between plain
+# class names were escaped when they were merged into an HTML() value.
+def _split_classes(cls: str | HTML) -> list[str]:
+    if isinstance(cls, HTML):
+        return cls.as_string().replace("&#10;", "\n").replace("&#13;", "\r").split()
+    return cls.split()
+
+
 # Tags that have the form <tagname />
 _VOID_TAG_NAMES = {
     "area",
-- 
2.43.0


From 9bc6e9d9ef878050859928d07df6e65858428161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:01 +0000
Subject: [PATCH 20/27] fix: HTMLDocument leaves an <html> tag returned by a
 tagifiable object alone

---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 18853a0..3be85fd 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1189,7 +1189,7 @@ class HTMLDocument:
             and isinstance(content[0], Tag)
             and cast(Tag, content[0]).name == "html"
         ):
-            html = cast(Tag, content[0])
+            html = copy(cast(Tag, content[0]))
             html.attrs.update(**self._html_attr_args)
             html = HTMLDocument._hoist_head_content(html, lib_prefix, include_version)
             return html
-- 
2.43.0


From 973edbf092ac7f31b7931f21fe030fbe8fa2dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 21/27] fix: display hook wrapper compares None/Ellipsis by
 identity

An object with an unusual __eq__ (e.g. a numpy array, or one equal to
everything) shown inside a with block raised another error or was silently
dropped, instead of being rejected with TypeError.
---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 3be85fd..2a01e58 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1068,7 +1068,7 @@ def wrap_displayhook_handler(
             handler(value)
         elif isinstance(value, ReprHtml):
             handler(HTML(value._repr_html_()))  # pyright: ignore[reportPrivateUsage]
-        elif value not in (None, ...):
+        elif value is not None and value is not ...:
             handler(value)
 
     return handler_wrapper
-- 
2.43.0


From a1cf930b2ff54eb9961997065dfd839b8d918930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 22/27] fix: write a jsx() style as the expression it is

---
 htmltools/_jsx.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 340ca94..b75cf79 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -291,6 +291,8 @@ def _quote(x: object) -> str:
 def _serialize_style_attr(x: object) -> str:
     if x is None:
         return "{}"
+    if isinstance(x, jsx):
+        return str(x)
     # Parse CSS strings into a dict (because React requires it)
     if isinstance(x, str):
         x = cast(
-- 
2.43.0


From fe1a483440aeeffe8e717be66f84d80a1d4665eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:14 +0000
Subject: [PATCH 23/27] fix: write inf and nan props as JavaScript numbers

---
 htmltools/_jsx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index b75cf79..16d831d 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -8,6 +8,7 @@ components may become unsupported in a future version (see #26 and #28)
 from __future__ import annotations
 
 import copy
+import json
 import re
 from typing import Any, Callable, Dict, Iterable, Mapping, Optional, cast
 
@@ -279,8 +280,11 @@ def _serialize_attr(x: object) -> str:
         )
     if isinstance(x, bool):
         return str(x).lower()
-    if isinstance(x, (jsx, int, float)):
+    if isinstance(x, jsx):
         return str(x)
+    if isinstance(x, (int, float)):
+        # Not str(), because inf and nan are spelled differently in JavaScript.
+        return json.dumps(x)
     return _quote(x)
 
 
-- 
2.43.0


From ef0adbbf64282c5e655e71fd3f75554ccaa73050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:25 +0000
Subject: [PATCH 24/27] fix: a string in a JSX component can't end its <script>

---
 htmltools/_jsx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index 16d831d..cbbfec9 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -222,7 +222,7 @@ def _render_react_js(x: TagNode, indent: int, eol: str) -> str:
     if isinstance(x, MetadataNode):
         return ""
     elif isinstance(x, str):
-        return indent_str + '"' + x.replace('"', '\\"') + '"'
+        return indent_str + _quote(x)
 
     if isinstance(x, JSXTag):
         nm = x.name
@@ -289,7 +289,9 @@ def _serialize_attr(x: object) -> str:
 
 
 def _quote(x: object) -> str:
-    return '"' + str(x).replace('"', '\\"') + '"'
+    # The literal goes in a <script>, which these would end (or keep from ending).
+    s = re.sub("<(?=/script|script|!--)", r"\\x3C", str(x), flags=re.IGNORECASE)
+    return '"' + s.replace('"', '\\"') + '"'
 
 
 def _serialize_style_attr(x: object) -> str:
-- 
2.43.0


From 38d65feacb83692ddbc831a5a5a2243c96d30547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 25/27] fix: save_html() writes UTF-8 whatever the locale is

The document declares charset utf-8, but the file was written in the locale's
encoding, so it was wrong (or writing failed) in processes with another one.
---
 htmltools/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 2a01e58..9d746e4 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -1166,7 +1166,7 @@ class HTMLDocument:
         for dep in rendered["dependencies"]:
             dep.copy_to(destdir, include_version=include_version)
 
-        with open(file, "w") as f:
+        with open(file, "w", encoding="utf-8") as f:
             f.write(rendered["html"])
         return file
 
-- 
2.43.0


From a739c91d717c8192f51c7390e9f379c20eeade02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:13 +0000
Subject: [PATCH 26/27] fix: a lone child string with tagify() or _repr_html_()
 isn't written as text

---
 htmltools/_core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/htmltools/_core.py b/htmltools/_core.py
index 9d746e4..37b91cb 100644
--- a/htmltools/_core.py
+++ b/htmltools/_core.py
@@ -907,8 +907,13 @@ class Tag:
         if len(children) == 0:
             return html_ + close
 
-        # Inline a single/empty child text node
-        if len(children) == 1 and isinstance(children[0], (str, HTML)):
+        # Inline a single/empty child text node (but not a string that expands or displays
+        # itself: like anywhere else, that isn't text)
+        if len(children) == 1 and (
+            isinstance(children[0], HTML)
+            or isinstance(children[0], str)
+            and not isinstance(children[0], (Tagifiable, ReprHtml))
+        ):
             if self.name in _NO_ESCAPE_TAG_NAMES:
                 return html_ + str(children[0]) + close
             else:
-- 
2.43.0


From 9601b9b3a8af49504cac8ead6dae351df20f060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:40 +0000
Subject: [PATCH 27/27] fix: jsx() + HTML() gives HTML() instead of raising

---
 htmltools/_jsx.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/htmltools/_jsx.py b/htmltools/_jsx.py
index cbbfec9..bd65204 100644
--- a/htmltools/_jsx.py
+++ b/htmltools/_jsx.py
@@ -389,6 +389,9 @@ class jsx(str):
 
     # jsx() + jsx() should return jsx()
     def __add__(self, other: "str | jsx") -> str:
+        if not isinstance(other, str):
+            # E.g. HTML(), which can be added to any string
+            return NotImplemented
         res = str.__add__(self, other)
         return jsx(res) if isinstance(other, jsx) else res
 
-- 
2.43.0

