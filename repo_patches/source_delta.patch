From cf4ad54173c4d7355a220afbc4e67619219910f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 01/42] fix: keep parameters named `_`, they are positions of
 the call like any other

---
 pyo3_bindgen_engine/src/syntax/function.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..c2275e0 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -102,9 +102,6 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
-
             // Extract the return annotation of the function
             let return_annotation = {
                 let return_annotation =
-- 
2.43.0


From e551c1a0f00defa653e0350fccc737d3bad3f7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 02/42] fix: call methods without parameters on their class,
 not on themselves

---
 pyo3_bindgen_engine/src/syntax/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index c2275e0..cb4d14c 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -228,8 +228,8 @@ impl Function {
             // Hack: Reassign InstanceMethod with no parameter to StaticMethod
             // This should not be necessary as every InstanceMethod should have at least one parameter (self), but it does for certain complex Python modules
             if let FunctionType::Method {
+                class_path,
                 typ: MethodType::InstanceMethod,
-                ..
             } = &typ
             {
                 if parameters.is_empty() {
@@ -237,7 +237,7 @@ impl Function {
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
                     typ = FunctionType::Method {
-                        class_path: name.clone(),
+                        class_path: class_path.clone(),
                         typ: MethodType::StaticMethod,
                     };
                 }
-- 
2.43.0


From 9058b4688dba64e970c05d98599293eb6980026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:50 +0000
Subject: [PATCH 03/42] fix: do not drop `*args` of methods without an explicit
 receiver, nor panic if there is no parameter at all

---
 pyo3_bindgen_engine/src/syntax/function.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index cb4d14c..c3ebe0b 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -249,7 +249,16 @@ impl Function {
                 ..
             } = typ
             {
-                parameters.remove(0);
+                // The receiver can also be absorbed by variadic positional parameters
+                if parameters.first().is_some_and(|param| {
+                    [
+                        ParameterKind::PositionalOnly,
+                        ParameterKind::PositionalOrKeyword,
+                    ]
+                    .contains(&param.kind)
+                }) {
+                    parameters.remove(0);
+                }
             };
 
             // If any of the parameters is still called 'self', do not handle the parameters
-- 
2.43.0


From e08375ccb0dd0abf82d7be9f2132add58269f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 04/42] fix: do not panic on property setters without a
 separate value parameter

---
 pyo3_bindgen_engine/src/syntax/property.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..d2728af 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -90,19 +90,22 @@ impl Property {
 
                         // Extract the annotation from the parameter of the function (if available)
                         if let Ok(function_signature) = signature.call1((&setter,)) {
-                            setter_annotation = {
-                                let param = function_signature
-                                    .getattr(pyo3::intern!(py, "parameters"))?
-                                    .call_method0(pyo3::intern!(py, "values"))?
-                                    .iter()?
-                                    .nth(1)
-                                    .unwrap()?;
+                            setter_annotation = if let Some(param) = function_signature
+                                .getattr(pyo3::intern!(py, "parameters"))?
+                                .call_method0(pyo3::intern!(py, "values"))?
+                                .iter()?
+                                .nth(1)
+                            {
+                                let param = param?;
                                 let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
                                 if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                     Type::Unknown
                                 } else {
                                     annotation.try_into()?
                                 }
+                            } else {
+                                // The value can also be absorbed by variadic positional parameters
+                                Type::Unknown
                             };
                         } else {
                             setter_annotation = Type::Unknown;
-- 
2.43.0


From 155d182d67644a0c893757fcbdf50f1bc1359653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:13 +0000
Subject: [PATCH 05/42] fix: type property setters by the annotation of the
 setter, not of the getter

---
 pyo3_bindgen_engine/src/syntax/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index d2728af..334b3e2 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -318,11 +318,11 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From de135cc59b027f50deef1db1eac014c5c7ca0500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:44 +0000
Subject: [PATCH 06/42] fix: do not turn declared static and class methods into
 instance methods because of a parameter named self

---
 pyo3_bindgen_engine/src/syntax/function.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index c3ebe0b..1b2adac 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -114,6 +114,7 @@ impl Function {
             };
 
             // If marked as an unknown method, try to infer the method type
+            let mut is_method_type_explicit = false;
             match &typ {
                 FunctionType::Method {
                     class_path,
@@ -155,6 +156,7 @@ impl Function {
                         } else {
                             MethodType::InstanceMethod
                         };
+                        is_method_type_explicit = true;
                         typ = FunctionType::Method {
                             class_path: class_path.clone(),
                             typ: method_type,
@@ -178,6 +180,8 @@ impl Function {
                     typ: MethodType::InstanceMethod | MethodType::Constructor | MethodType::Callable,
                     ..
                 } => {}
+                // The name of the first parameter says nothing if the method is declared as static/class method
+                FunctionType::Method { .. } if is_method_type_explicit => {}
                 FunctionType::Method { class_path, typ: _ } => {
                     if parameters.first().map(|p| p.name.as_rs()) == Some("r#self") {
                         typ = FunctionType::Method {
-- 
2.43.0


From 32a42b95b024fe3b7b431c26ef202b5aa42dc336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:46 +0000
Subject: [PATCH 07/42] fix: do not define a getter or setter twice if another
 attribute is called get_x or set_x

---
 pyo3_bindgen_engine/src/syntax/class.rs    | 15 +++++++++-
 pyo3_bindgen_engine/src/syntax/module.rs   | 13 ++++++++-
 pyo3_bindgen_engine/src/syntax/property.rs | 34 +++++++++++++++++++---
 3 files changed, 56 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..7957adf 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -255,9 +255,22 @@ impl Class {
                 scoped_function_idents_extra.push(Ident::from_py("call"));
             }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
+            // Get the names of all properties to avoid name clashes with derived getters and setters
+            let scoped_property_idents = self
+                .properties
+                .iter()
+                .map(|property| property.name.name())
+                .collect::<Vec<_>>();
             self.properties
                 .iter()
-                .map(|property| property.generate(cfg, &scoped_function_idents, local_types))
+                .map(|property| {
+                    property.generate(
+                        cfg,
+                        &scoped_function_idents,
+                        &scoped_property_idents,
+                        local_types,
+                    )
+                })
                 .try_for_each(|def| {
                     match def? {
                         FunctionImplementation::Function(impl_fn) => {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..54504a0 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -355,6 +355,12 @@ impl Module {
             .iter()
             .map(|function| function.name.name())
             .collect::<Vec<_>>();
+        // Get the names of all properties to avoid name clashes with derived getters and setters
+        let scoped_property_idents = self
+            .properties
+            .iter()
+            .map(|property| property.name.name())
+            .collect::<Vec<_>>();
 
         // Get all local types mapped to the full path
         let local_types = all_types
@@ -453,7 +459,12 @@ impl Module {
                     .iter()
                     .map(|property| {
                         property
-                            .generate(cfg, &scoped_function_idents, &local_types)
+                            .generate(
+                                cfg,
+                                &scoped_function_idents,
+                                &scoped_property_idents,
+                                &local_types,
+                            )
                             .map(|def| {
                                 if let FunctionImplementation::Function(impl_fn) = def {
                                     impl_fn
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 334b3e2..bb2843e 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -153,6 +153,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_property_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<FunctionImplementation> {
         Ok(match self.owner {
@@ -161,14 +162,24 @@ impl Property {
 
                 // Getter
                 let impl_fn = self
-                    .generate_getter(cfg, scoped_function_idents, local_types)?
+                    .generate_getter(
+                        cfg,
+                        scoped_function_idents,
+                        scoped_property_idents,
+                        local_types,
+                    )?
                     .impl_fn;
                 functions.extend(quote::quote! { pub #impl_fn });
 
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
-                        .generate_setter(cfg, scoped_function_idents, local_types)?
+                        .generate_setter(
+                            cfg,
+                            scoped_function_idents,
+                            scoped_property_idents,
+                            local_types,
+                        )?
                         .impl_fn;
                     functions.extend(quote::quote! { pub #impl_fn });
                 }
@@ -180,13 +191,23 @@ impl Property {
                 let mut impl_fn = proc_macro2::TokenStream::new();
 
                 // Getter
-                let getter = self.generate_getter(cfg, scoped_function_idents, local_types)?;
+                let getter = self.generate_getter(
+                    cfg,
+                    scoped_function_idents,
+                    scoped_property_idents,
+                    local_types,
+                )?;
                 trait_fn.extend(getter.trait_fn);
                 impl_fn.extend(getter.impl_fn);
 
                 // Setter (if mutable)
                 if self.is_mutable {
-                    let setter = self.generate_setter(cfg, scoped_function_idents, local_types)?;
+                    let setter = self.generate_setter(
+                        cfg,
+                        scoped_function_idents,
+                        scoped_property_idents,
+                        local_types,
+                    )?;
                     trait_fn.extend(setter.trait_fn);
                     impl_fn.extend(setter.impl_fn);
                 }
@@ -200,6 +221,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_property_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<TraitMethod> {
         let mut trait_fn = proc_macro2::TokenStream::new();
@@ -224,6 +246,7 @@ impl Property {
                 {
                     let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
                     if scoped_function_idents.contains(&&getter_name)
+                        || scoped_property_idents.contains(&&getter_name)
                         || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                     {
                         return Ok(TraitMethod::empty());
@@ -236,6 +259,7 @@ impl Property {
             } else {
                 let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
                 if scoped_function_idents.contains(&&getter_name)
+                    || scoped_property_idents.contains(&&getter_name)
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                 {
                     return Ok(TraitMethod::empty());
@@ -291,6 +315,7 @@ impl Property {
         &self,
         cfg: &Config,
         scoped_function_idents: &[&Ident],
+        scoped_property_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<TraitMethod> {
         let mut trait_fn = proc_macro2::TokenStream::new();
@@ -310,6 +335,7 @@ impl Property {
         let function_ident: syn::Ident = {
             let setter_name = Ident::from_py(&format!("set_{}", self.name.name().as_py()));
             if scoped_function_idents.contains(&&setter_name)
+                || scoped_property_idents.contains(&&setter_name)
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
                 return Ok(TraitMethod::empty());
-- 
2.43.0


From 621c183bd4b3b0c921e57eb4d910175267cd30dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:14 +0000
Subject: [PATCH 08/42] fix: do not name a getter like the numbered constructor
 or call method

---
 pyo3_bindgen_engine/src/syntax/class.rs    |  6 ++-
 pyo3_bindgen_engine/src/syntax/function.rs | 47 +++++++++-------------
 2 files changed, 23 insertions(+), 30 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 7957adf..e6da219 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -241,7 +241,8 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("new"));
+                scoped_function_idents_extra
+                    .push(Function::numbered_ident("new", &scoped_function_idents));
             }
             if self.methods.iter().any(|method| {
                 matches!(
@@ -252,7 +253,8 @@ impl Class {
                     }
                 )
             }) {
-                scoped_function_idents_extra.push(Ident::from_py("call"));
+                scoped_function_idents_extra
+                    .push(Function::numbered_ident("call", &scoped_function_idents));
             }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             // Get the names of all properties to avoid name clashes with derived getters and setters
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 1b2adac..c72ccb2 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -327,6 +327,21 @@ impl Function {
         }
     }
 
+    /// First of `name`, `name1`, `name2`, ... that is not used by any other function in the scope.
+    pub(crate) fn numbered_ident(name: &str, scoped_function_idents: &[&Ident]) -> Ident {
+        let mut i = 0;
+        loop {
+            let ident = Ident::from_py(&format!(
+                "{name}{}",
+                (i > 0).then(|| i.to_string()).unwrap_or_default()
+            ));
+            if !scoped_function_idents.contains(&&ident) {
+                break ident;
+            }
+            i += 1;
+        }
+    }
+
     pub fn generate(
         &self,
         cfg: &Config,
@@ -413,20 +428,8 @@ impl Function {
                 typ: MethodType::Callable,
                 ..
             } => {
-                let call_fn_ident: syn::Ident = {
-                    let mut i = 0;
-                    loop {
-                        let ident = Ident::from_py(&format!(
-                            "call{}",
-                            (i > 0).then(|| i.to_string()).unwrap_or_default()
-                        ));
-                        if !scoped_function_idents.contains(&&ident) {
-                            break ident;
-                        }
-                        i += 1;
-                    }
-                }
-                .try_into()?;
+                let call_fn_ident: syn::Ident =
+                    Self::numbered_ident("call", scoped_function_idents).try_into()?;
                 quote::quote! {
                     fn #call_fn_ident<'py>(
                         &'py self,
@@ -438,20 +441,8 @@ impl Function {
                 typ: MethodType::Constructor,
                 ..
             } => {
-                let new_fn_ident: syn::Ident = {
-                    let mut i = 0;
-                    loop {
-                        let ident = Ident::from_py(&format!(
-                            "new{}",
-                            (i > 0).then(|| i.to_string()).unwrap_or_default()
-                        ));
-                        if !scoped_function_idents.contains(&&ident) {
-                            break ident;
-                        }
-                        i += 1;
-                    }
-                }
-                .try_into()?;
+                let new_fn_ident: syn::Ident =
+                    Self::numbered_ident("new", scoped_function_idents).try_into()?;
                 quote::quote! {
                     pub fn #new_fn_ident<'py>(
                         py: ::pyo3::marker::Python<'py>,
-- 
2.43.0


From 36d9ab317832b3bdb216d7a4185db8503723e0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:50 +0000
Subject: [PATCH 09/42] fix: sanitize getter and setter names of attributes
 that are no identifiers

---
 pyo3_bindgen_engine/src/syntax/property.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index bb2843e..d509ef9 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -257,7 +257,11 @@ impl Property {
                     ident
                 }
             } else {
-                let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
+                // Sanitize the getter name
+                let getter_name = Ident::from_py(&format!(
+                    "get_{}",
+                    name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
+                ));
                 if scoped_function_idents.contains(&&getter_name)
                     || scoped_property_idents.contains(&&getter_name)
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
@@ -333,7 +337,14 @@ impl Property {
 
         // Function
         let function_ident: syn::Ident = {
-            let setter_name = Ident::from_py(&format!("set_{}", self.name.name().as_py()));
+            // Sanitize the setter name
+            let setter_name = Ident::from_py(&format!(
+                "set_{}",
+                self.name
+                    .name()
+                    .as_py()
+                    .replace(|c: char| !c.is_alphanumeric(), "_")
+            ));
             if scoped_function_idents.contains(&&setter_name)
                 || scoped_property_idents.contains(&&setter_name)
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
-- 
2.43.0


From c24571077a2ea62b73962e4d77dbfe2702963369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:23 +0000
Subject: [PATCH 10/42] fix: do not emit a lone `pub` for module attributes
 whose getter or setter is omitted

---
 pyo3_bindgen_engine/src/syntax/property.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index d509ef9..7637b8e 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -169,7 +169,10 @@ impl Property {
                         local_types,
                     )?
                     .impl_fn;
-                functions.extend(quote::quote! { pub #impl_fn });
+                // (it is empty if its name is already taken)
+                if !impl_fn.is_empty() {
+                    functions.extend(quote::quote! { pub #impl_fn });
+                }
 
                 // Setter (if mutable)
                 if self.is_mutable {
@@ -181,7 +184,9 @@ impl Property {
                             local_types,
                         )?
                         .impl_fn;
-                    functions.extend(quote::quote! { pub #impl_fn });
+                    if !impl_fn.is_empty() {
+                        functions.extend(quote::quote! { pub #impl_fn });
+                    }
                 }
 
                 FunctionImplementation::Function(functions)
-- 
2.43.0


From fd7b70f345d45f3ed95fe691f67b84cb299c6df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:04 +0000
Subject: [PATCH 11/42] fix: merge nested generics split at commas correctly,
 and do not panic on unbalanced brackets

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 45 +++++++++--------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..ae7d77b 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -485,38 +485,27 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
     //     merged_sequence.matches('[').count() == merged_sequence.matches(']').count()
     // });
 
-    let mut traversed_all_elements = false;
-    let mut start_index = 0;
-    'outer: while !traversed_all_elements {
-        traversed_all_elements = true;
-        'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
-            if n_scopes == 0 {
-                continue;
-            }
-            for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
-                if n_scopes == 0 {
-                    let mut new_element = sequence[i].clone();
-                    for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-                        new_element = format!("{new_element}{separator}{relevant_element}");
-                    }
-                    sequence[i] = new_element;
-                    sequence.drain((i + 1)..=j);
-                    if j < sequence.len() - 1 {
-                        traversed_all_elements = false;
-                        start_index = i;
-                        break 'inner;
-                    } else {
-                        break 'outer;
-                    }
-                }
-            }
+    let mut i = 0;
+    while i < sequence.len() {
+        // Merge the element with the following ones until all of its scopes are closed
+        while n_open_scopes(&sequence[i]) > 0 && i + 1 < sequence.len() {
+            let next_element = sequence.remove(i + 1);
+            sequence[i].push(separator);
+            sequence[i].push_str(&next_element);
         }
+        i += 1;
     }
 }
 
+/// Number of scopes that are opened but not closed by the given type.
+fn n_open_scopes(value: &str) -> isize {
+    value.chars().fold(0, |n_scopes, c| match c {
+        '[' => n_scopes + 1,
+        ']' => n_scopes - 1,
+        _ => n_scopes,
+    })
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From af0c86e4218935e6c9a27ef4cf9145e767c97660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:56 +0000
Subject: [PATCH 12/42] fix: split unions only where they are not nested in
 brackets

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 45 +++++++++++------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index ae7d77b..53c3380 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -224,29 +224,21 @@ impl std::str::FromStr for Type {
             "str" => Self::PyString,
 
             // Enums
-            optional
-                if optional.matches('|').count() == 1 && optional.matches("None").count() == 1 =>
-            {
-                let inner_type = Self::from_str(
-                    optional
-                        .split('|')
-                        .map(str::trim)
-                        .find(|x| *x != "None")
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::Optional(Box::new(inner_type))
-            }
-            r#union if r#union.contains('|') => {
-                let mut inner_types = r#union
-                    .split('|')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
-                let inner_types = inner_types
-                    .iter()
-                    .map(|x| Self::from_str(x))
-                    .collect::<Result<_>>()?;
-                Self::Union(inner_types)
+            r#union if split_union(r#union).len() > 1 => {
+                let inner_types = split_union(r#union);
+                match inner_types.as_slice() {
+                    [inner_type, none] | [none, inner_type]
+                        if none == "None" && inner_type != "None" =>
+                    {
+                        Self::Optional(Box::new(Self::from_str(inner_type)?))
+                    }
+                    _ => Self::Union(
+                        inner_types
+                            .iter()
+                            .map(|x| Self::from_str(x))
+                            .collect::<Result<_>>()?,
+                    ),
+                }
             }
             "Union" => Self::Union(vec![Self::Unknown]),
             "" | "None" | "NoneType" => Self::PyNone,
@@ -476,6 +468,13 @@ impl std::str::FromStr for Type {
     }
 }
 
+/// Splits the union into its members, which can contain nested unions themselves.
+fn split_union(value: &str) -> Vec<String> {
+    let mut inner_types = value.split('|').map(|x| x.trim().to_owned()).collect_vec();
+    repair_complex_sequence(&mut inner_types, '|');
+    inner_types
+}
+
 // TODO: Refactor `repair_complex_sequence()` into something more sensible
 /// Repairs complex wrapped sequences.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
-- 
2.43.0


From 2c3c20db1fcdc4c918f2b8baf601ee5064928b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 13/42] fix: do not apply the arguments of annotated types and
 generic subclasses to their base, nor panic if one is missing

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 53c3380..df3534f 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -121,8 +121,14 @@ impl Type {
             "typing"
         );
 
-        if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
-            let wrapping_type = Self::try_from(wrapping_type)?;
+        if let Ok(origin) = value.getattr(pyo3::intern!(py, "__origin__")) {
+            // The arguments of annotated types and of generic subclasses do not belong to the wrapping type
+            let has_foreign_args = origin.hasattr(pyo3::intern!(py, "__args__"))?
+                || origin.hasattr(pyo3::intern!(py, "__orig_bases__"))?;
+            let wrapping_type = Self::try_from(origin)?;
+            if has_foreign_args {
+                return Ok(wrapping_type);
+            }
             Ok(
                 if let Ok(inner_types) =
                     value
@@ -261,7 +267,7 @@ impl std::str::FromStr for Type {
                     .collect::<Result<Vec<_>>>()?;
                 Self::PyDict {
                     key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                    value_type: Box::new(inner_types.get(1).cloned().unwrap_or(Self::Unknown)),
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
-- 
2.43.0


From e1d1c3bbf5a503d7ee832e158f99362d2f24b146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:04 +0000
Subject: [PATCH 14/42] fix: map type[X] to a class object instead of an
 instance of X

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index df3534f..96965f3 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -194,10 +194,6 @@ impl Type {
                                 ),
                             }
                         }
-                        Self::PyType => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
-                        }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -420,12 +416,7 @@ impl std::str::FromStr for Type {
             #[cfg(not(PyPy))]
             "super" => Self::PySuper,
             "traceback" => Self::PyTraceback,
-            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::from_str(
-                typ.strip_prefix("type[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
 
             // classes
             class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-- 
2.43.0


From 2f0497f53da7191a986cbfec6a43d96dae0dff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:08 +0000
Subject: [PATCH 15/42] fix: map datetime.datetime, which is a subclass of
 datetime.date, to PyDateTime

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 96965f3..40c2111 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -76,10 +76,10 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
 
             // Additional types - datetime
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
-            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDateTime>()? => Self::PyDateTime,
             #[cfg(not(Py_LIMITED_API))]
+            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDelta>()? => Self::PyDelta,
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyTime>()? => Self::PyTime,
-- 
2.43.0


From c72ef78854d8d24f39f2f5fb6eff9e8c3eceb511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:13 +0000
Subject: [PATCH 16/42] fix: look up local types consistently, and do not panic
 if the annotation is no path

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..e17d33f 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -63,7 +63,7 @@ impl Type {
             }
             Self::Other(type_name)
                 if Self::try_map_external_type(type_name).is_none()
-                    && !local_types.contains_key(&Path::from_py(type_name)) =>
+                    && Self::try_map_local_type(type_name, local_types).is_none() =>
             {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(#ident, py);
@@ -316,10 +316,7 @@ impl Type {
         }
 
         // Try to map the local types
-        let type_name_without_delimiters =
-            type_name.split_once('[').map(|s| s.0).unwrap_or(&type_name);
-        if let Some(relative_path) = local_types.get(&Path::from_py(type_name_without_delimiters)) {
-            let relative_path: syn::Path = relative_path.try_into().unwrap();
+        if let Some(relative_path) = Self::try_map_local_type(&type_name, local_types) {
             return OutputType::new(
                 quote!(::pyo3::Bound<'py, #relative_path>),
                 quote!(&::pyo3::Bound<'py, #relative_path>),
@@ -333,6 +330,22 @@ impl Type {
         )
     }
 
+    fn try_map_local_type(
+        type_name: &str,
+        local_types: &HashMap<Path, Path>,
+    ) -> Option<syn::Path> {
+        let type_name_without_delimiters =
+            type_name.split_once('[').map(|s| s.0).unwrap_or(type_name);
+        // Arbitrary annotations are not necessarily paths
+        if type_name_without_delimiters.contains(':') {
+            return None;
+        }
+        local_types
+            .get(&Path::from_py(type_name_without_delimiters))?
+            .try_into()
+            .ok()
+    }
+
     fn try_map_external_type(type_name: &str) -> Option<OutputType> {
         // TODO: Handle types from other packages with Rust bindings here
         match type_name {
-- 
2.43.0


From 537e8bcc949c468c342f1e628701c9da576cc0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:17 +0000
Subject: [PATCH 17/42] fix: do not use types without Hash as keys of hash maps
 and sets

---
 pyo3_bindgen_engine/src/typing/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c5ec710..192b765 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -79,11 +79,7 @@ impl Type {
                 | Self::IpV4Addr
                 | Self::IpV6Addr
                 | Self::Path
-                | Self::PyDelta
-                | Self::PyDict { .. }
-                | Self::PyFrozenSet(..)
                 | Self::PyLong
-                | Self::PySet(..)
                 | Self::PyString
         )
     }
-- 
2.43.0


From b9ac951c5dccf80e4030dc251d2bc819e82666d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:21 +0000
Subject: [PATCH 18/42] fix: map IP addresses to a type that exists and that
 pyo3 can convert

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index e17d33f..076c1b3 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -202,8 +202,9 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            Self::IpV4Addr | Self::IpV6Addr => {
+                OutputType::new_identical(quote!(::std::net::IpAddr))
+            }
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
-- 
2.43.0


From bdd44649a62269afc41e78548f8b2f9f9ada2728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:25 +0000
Subject: [PATCH 19/42] fix: do not use tuples that are too long for pyo3 to
 convert

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 076c1b3..1398b69 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -5,6 +5,9 @@ use quote::quote;
 use rustc_hash::FxHashMap as HashMap;
 use std::rc::Rc;
 
+/// Maximum length of tuples that can be converted by pyo3.
+const MAX_TUPLE_LEN: usize = 12;
+
 impl Type {
     pub fn into_rs_owned(self, local_types: &HashMap<Path, Path>) -> proc_macro2::TokenStream {
         let owned = self.into_rs(local_types).owned;
@@ -37,7 +40,9 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() < 2 => {
+            Self::PyTuple(inner_types)
+                if inner_types.len() < 2 || inner_types.len() > MAX_TUPLE_LEN =>
+            {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -183,7 +188,7 @@ impl Type {
                 }
             }
             Self::PyTuple(inner_types) => {
-                if inner_types.len() < 2 {
+                if inner_types.len() < 2 || inner_types.len() > MAX_TUPLE_LEN {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
-- 
2.43.0


From 9cc7d85b04f02799a98ff33b517bf9347aa45302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:28 +0000
Subject: [PATCH 20/42] fix: pass bytes and bytearray parameters as such, not
 as lists of integers

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 1398b69..fd0cd08 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -40,6 +40,17 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
+            // Byte slices would be converted to a list of integers
+            Self::PyByteArray => {
+                quote! {
+                    let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
+                }
+            }
+            Self::PyBytes => {
+                quote! {
+                    let #ident = ::pyo3::types::PyBytes::new_bound(py, #ident);
+                }
+            }
             Self::PyTuple(inner_types)
                 if inner_types.len() < 2 || inner_types.len() > MAX_TUPLE_LEN =>
             {
@@ -76,6 +87,16 @@ impl Type {
                 }
             }
             Self::Optional(inner_type) => match inner_type.as_ref() {
+                Self::PyByteArray => {
+                    quote! {
+                        let #ident = #ident.map(|#ident| ::pyo3::types::PyByteArray::new_bound(py, &#ident));
+                    }
+                }
+                Self::PyBytes => {
+                    quote! {
+                        let #ident = #ident.map(|#ident| ::pyo3::types::PyBytes::new_bound(py, &#ident));
+                    }
+                }
                 Self::PyDict {
                     key_type,
                     value_type,
-- 
2.43.0


From 09865bc93bde0f16047563e773988e39d2a6bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:33 +0000
Subject: [PATCH 21/42] fix: pass None for optional dictionaries instead of an
 empty dictionary

---
 pyo3_bindgen_engine/src/syntax/function.rs | 17 ++++++++++++++---
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 19 -------------------
 2 files changed, 14 insertions(+), 22 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index c72ccb2..debc6a8 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -401,9 +401,20 @@ impl Function {
             .iter()
             .zip(param_idents.iter())
             .map(|(param, param_ident)| {
-                param
-                    .annotation
-                    .preprocess_borrowed(param_ident, local_types)
+                if param.kind == ParameterKind::VarKeyword {
+                    // Variadic keyword parameters are always passed as a dictionary
+                    quote::quote! {
+                        let #param_ident = if let Some(#param_ident) = #param_ident {
+                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#param_ident, py)
+                        } else {
+                            ::pyo3::types::PyDict::new_bound(py)
+                        };
+                    }
+                } else {
+                    param
+                        .annotation
+                        .preprocess_borrowed(param_ident, local_types)
+                }
             })
             .collect();
         let param_types: Vec<proc_macro2::TokenStream> = self
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index fd0cd08..5d45085 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -97,25 +97,6 @@ impl Type {
                         let #ident = #ident.map(|#ident| ::pyo3::types::PyBytes::new_bound(py, &#ident));
                     }
                 }
-                Self::PyDict {
-                    key_type,
-                    value_type,
-                } if !key_type.is_hashable()
-                    || value_type
-                        .clone()
-                        .into_rs(local_types)
-                        .owned
-                        .to_string()
-                        .contains("PyAny") =>
-                {
-                    quote! {
-                        let #ident = if let Some(#ident) = #ident {
-                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
-                        } else {
-                            ::pyo3::types::PyDict::new_bound(py)
-                        };
-                    }
-                }
                 _ => proc_macro2::TokenStream::new(),
             },
             _ => proc_macro2::TokenStream::new(),
-- 
2.43.0


From 7dac2dbbd23490874fb843bfd63b20a0d7f90b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 22/42] fix: recognise annotated types by their metadata

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 40c2111..771ec1f 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -123,7 +123,7 @@ impl Type {
 
         if let Ok(origin) = value.getattr(pyo3::intern!(py, "__origin__")) {
             // The arguments of annotated types and of generic subclasses do not belong to the wrapping type
-            let has_foreign_args = origin.hasattr(pyo3::intern!(py, "__args__"))?
+            let has_foreign_args = value.hasattr(pyo3::intern!(py, "__metadata__"))?
                 || origin.hasattr(pyo3::intern!(py, "__orig_bases__"))?;
             let wrapping_type = Self::try_from(origin)?;
             if has_foreign_args {
-- 
2.43.0


From 099536979a4c8990a2152770a7ec1b9fedcffbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:50 +0000
Subject: [PATCH 23/42] fix: restore the output of Python if parsing fails, and
 suppress it with an object that can be written to

---
 pyo3_bindgen_engine/src/utils/io.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..a9802ef 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -21,7 +21,7 @@ pub fn with_suppressed_python_output<T>(
     let original_stderr = sys.getattr(stderr_ident)?;
 
     // Suppress the output
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
+    let supressed_output = py.eval_bound(r"type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})()", None, None)?;
     if suppress_stdout {
         sys.setattr(stdout_ident, &supressed_output)?;
     }
@@ -30,7 +30,7 @@ pub fn with_suppressed_python_output<T>(
     }
 
     // Run the function
-    let ret = f()?;
+    let ret = f();
 
     // Restore the original stdout and stderr
     if suppress_stdout {
@@ -40,5 +40,5 @@ pub fn with_suppressed_python_output<T>(
         sys.setattr(stderr_ident, original_stderr)?;
     }
 
-    Ok(ret)
+    ret
 }
-- 
2.43.0


From d1f0d0028a35c53563e3e4d0fc1ac29946eda4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 24/42] fix: call the module with the prelude `prelude`

---
 pyo3_bindgen_engine/src/syntax/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 54504a0..8015c43 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -664,7 +664,7 @@ impl Module {
             let mut i = 0;
             loop {
                 let ident = Ident::from_py(&format!(
-                    "call{}",
+                    "prelude{}",
                     (i > 0).then(|| i.to_string()).unwrap_or_default()
                 ));
                 if !self.check_ident_exists_immediate(&ident, true) {
-- 
2.43.0


From 70ee7c1ae79a037a1afaf0fc2068b79977a61185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 25/42] fix: embed the source code of modules under their
 Python names, and that of submodules as well

---
 pyo3_bindgen_engine/src/codegen.rs       | 18 +++++++++++++-----
 pyo3_bindgen_engine/src/syntax/module.rs | 10 +++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..b781e3b 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -149,11 +149,7 @@ impl Codegen {
         self.canonicalize();
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        Self::embed_source_code_recursive(&mut self.modules, &self.embedded_source_code);
 
         // Generate the bindings for all modules
         self.modules
@@ -168,6 +164,18 @@ impl Codegen {
         Ok(std::fs::write(output_path, self.generate()?.to_string())?)
     }
 
+    fn embed_source_code_recursive(
+        modules: &mut [Module],
+        embedded_source_code: &HashMap<String, String>,
+    ) {
+        for module in modules {
+            if let Some(source_code) = embedded_source_code.get(&module.name.to_py()) {
+                module.source_code = Some(source_code.clone());
+            }
+            Self::embed_source_code_recursive(&mut module.submodules, embedded_source_code);
+        }
+    }
+
     fn parse_dependencies(&mut self) -> Result<()> {
         fn get_imports_recursive(input: &[Module]) -> Vec<Import> {
             let mut imports = Vec::new();
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 8015c43..0cb79d7 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -24,16 +24,16 @@ pub struct Module {
 
 impl Module {
     pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
-        let module = py.import_bound(name.to_py().as_str())?;
-
-        // Extract the docstring of the module
-        let docstring = {
+        // Extract the docstring of the module (it might not exist if its submodule was created from source code)
+        let docstring = if let Ok(module) = py.import_bound(name.to_py().as_str()) {
             let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
             if docstring.is_empty() || docstring == "None" {
                 None
             } else {
                 Some(docstring)
             }
+        } else {
+            None
         };
 
         Ok(Self {
@@ -488,7 +488,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From 7a59526f44ad53e9af97ead638f3b4aad7b71824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 26/42] fix: generate submodules that were requested by their
 path even if submodules are not traversed

---
 pyo3_bindgen_engine/src/syntax/module.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 0cb79d7..cbf97af 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -476,15 +476,13 @@ impl Module {
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-        // Submodules
-        if cfg.traverse_submodules {
-            module_content.extend(
-                self.submodules
-                    .iter()
-                    .map(|module| module.generate(cfg, top_level_modules, all_types))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        // Submodules (if submodules are not traversed, these are the ones that were requested by their path)
+        module_content.extend(
+            self.submodules
+                .iter()
+                .map(|module| module.generate(cfg, top_level_modules, all_types))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-- 
2.43.0


From 11fca46c52322accacb055b0ff3c164901bbe7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:16 +0000
Subject: [PATCH 27/42] fix: import submodules by their full path, because they
 are not necessarily attributes of their package yet

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 10 ++++++++++
 pyo3_bindgen_engine/src/syntax/function.rs    |  2 +-
 pyo3_bindgen_engine/src/syntax/property.rs    |  4 ++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..40cbb05 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -194,6 +194,16 @@ impl Path {
         }
     }
 
+    /// Import of a path that is known to be a module, which is not necessarily an attribute of its package (yet)
+    pub fn import_module_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
+        let module_path = self.to_py();
+        if py.import_bound(module_path.as_str()).is_ok() {
+            quote::quote! { py.import_bound(::pyo3::intern!(py, #module_path))? }
+        } else {
+            self.import_quote(py)
+        }
+    }
+
     pub fn import_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
         // Find the last package and import it via py.import, then get the rest of the path via getattr()
         let mut package_path = self.root().unwrap_or_else(|| unreachable!());
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index debc6a8..e29fcf5 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -489,7 +489,7 @@ impl Function {
                 self.name
                     .parent()
                     .unwrap_or_else(|| unreachable!())
-                    .import_quote(py)
+                    .import_module_quote(py)
             }),
             FunctionType::Method {
                 class_path,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 7637b8e..360f21d 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -285,7 +285,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
@@ -371,7 +371,7 @@ impl Property {
                     self.name
                         .parent()
                         .unwrap_or_else(|| unreachable!())
-                        .import_quote(py)
+                        .import_module_quote(py)
                 });
                 impl_fn.extend(quote::quote! {
                     fn #function_ident<'py>(
-- 
2.43.0


From 4bc69ed9e96e0a1be71a36540cf94c5586e938dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:22 +0000
Subject: [PATCH 28/42] fix: map types in imported modules to the path under
 which they are imported

---
 pyo3_bindgen_engine/src/syntax/module.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index cbf97af..351c079 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -381,10 +381,9 @@ impl Module {
                                 .to_py()
                                 .strip_prefix(&format!("{}.", import.origin.to_py()))
                             {
-                                let mut path = Path::from_py(stripped_path);
-                                // Overwrite the first segment with the target name to support aliasing
-                                import.target.name().clone_into(&mut path[0]);
-                                path
+                                // Replace the origin with the target name to support aliasing
+                                Path::from(import.target.name().to_owned())
+                                    .join(&Path::from_py(stripped_path))
                             } else {
                                 import.target.name().to_owned().into()
                             }
-- 
2.43.0


From f15dec4e25f22cd041d9806b18a3372a44c531a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 29/42] fix: do not refer to items whose generation is
 disabled, nor to the original names of items that had to be renamed

---
 pyo3_bindgen_engine/src/codegen.rs       | 24 ++++---
 pyo3_bindgen_engine/src/syntax/module.rs | 89 +++++++++++++++---------
 2 files changed, 70 insertions(+), 43 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index b781e3b..96c30fa 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -384,22 +384,26 @@ impl Codegen {
     }
 
     fn get_all_types(&self) -> Vec<Path> {
-        fn get_types_recursive(input: &[Module]) -> Vec<Path> {
+        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<Path> {
             let mut types = Vec::new();
             for module in input {
-                types.extend(module.classes.iter().map(|class| class.name.clone()));
-                types.extend(
-                    module
-                        .type_vars
-                        .iter()
-                        .map(|type_var| type_var.name.clone()),
-                );
-                types.extend(get_types_recursive(&module.submodules));
+                if cfg.generate_classes {
+                    types.extend(module.classes.iter().map(|class| class.name.clone()));
+                }
+                if cfg.generate_type_vars {
+                    types.extend(
+                        module
+                            .type_vars
+                            .iter()
+                            .map(|type_var| type_var.name.clone()),
+                    );
+                }
+                types.extend(get_types_recursive(cfg, &module.submodules));
             }
             types
         }
 
-        get_types_recursive(&self.modules)
+        get_types_recursive(&self.cfg, &self.modules)
             .into_iter()
             .unique()
             .collect()
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 351c079..df8cb77 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -404,7 +404,7 @@ impl Module {
                     .filter(|import| {
                         top_level_modules
                             .iter()
-                            .any(|module| module.check_path_exists_recursive(&import.origin, false))
+                            .any(|module| module.check_path_exists_recursive(cfg, &import.origin, false))
                     })
                     .map(|import| import.generate(cfg))
                     .collect::<Result<proc_macro2::TokenStream>>()?,
@@ -412,7 +412,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude());
+            module_content.extend(self.generate_prelude(cfg)?);
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -631,7 +631,7 @@ impl Module {
         index_attr_names
     }
 
-    fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
+    fn generate_prelude(&self, cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // Skip if the prelude is empty
         if self.prelude.is_empty() {
             return Ok(proc_macro2::TokenStream::new());
@@ -642,14 +642,15 @@ impl Module {
             .prelude
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
-            .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            .filter(|&ident| self.check_ident_exists_immediate(cfg, ident, false))
+            // Skip attributes that had to be renamed
+            .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
-                let ident: syn::Ident = ident.try_into()?;
-                Ok(quote::quote! {
+                quote::quote! {
                     #ident,
-                })
+                }
             })
-            .collect::<Result<proc_macro2::TokenStream>>()?;
+            .collect::<proc_macro2::TokenStream>();
 
         // Return empty prelude if there are no exports
         if exports.is_empty() {
@@ -664,7 +665,7 @@ impl Module {
                     "prelude{}",
                     (i > 0).then(|| i.to_string()).unwrap_or_default()
                 ));
-                if !self.check_ident_exists_immediate(&ident, true) {
+                if !self.check_ident_exists_immediate(cfg, &ident, true) {
                     break ident;
                 }
                 i += 1;
@@ -678,24 +679,42 @@ impl Module {
         })
     }
 
-    fn check_path_exists_recursive(&self, path: &Path, consider_imports: bool) -> bool {
-        (consider_imports && self.imports.iter().any(|import| import.target == *path))
+    /// Check if the path refers to an item that is generated by this module or any of its submodules
+    fn check_path_exists_recursive(
+        &self,
+        cfg: &Config,
+        path: &Path,
+        consider_imports: bool,
+    ) -> bool {
+        (consider_imports
+            && cfg.generate_imports
+            && self.imports.iter().any(|import| import.target == *path))
             || self.submodules.iter().any(|module| module.name == *path)
-            || self.classes.iter().any(|class| class.name == *path)
-            || self.functions.iter().any(|function| function.name == *path)
-            || self.type_vars.iter().any(|type_var| type_var.name == *path)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name == *path)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name == *path))
+            || (cfg.generate_functions
+                && self.functions.iter().any(|function| function.name == *path))
+            || (cfg.generate_type_vars
+                && self.type_vars.iter().any(|type_var| type_var.name == *path))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name == *path))
             || self
                 .submodules
                 .iter()
-                .any(|module| module.check_path_exists_recursive(path, consider_imports))
+                .any(|module| module.check_path_exists_recursive(cfg, path, consider_imports))
     }
 
-    fn check_ident_exists_immediate(&self, ident: &Ident, consider_imports: bool) -> bool {
+    /// Check if the identifier refers to an item that is generated by this module
+    fn check_ident_exists_immediate(
+        &self,
+        cfg: &Config,
+        ident: &Ident,
+        consider_imports: bool,
+    ) -> bool {
         (consider_imports
+            && cfg.generate_imports
             && self
                 .imports
                 .iter()
@@ -704,18 +723,22 @@ impl Module {
                 .submodules
                 .iter()
                 .any(|module| module.name.name() == ident)
-            || self.classes.iter().any(|class| class.name.name() == ident)
-            || self
-                .functions
-                .iter()
-                .any(|function| function.name.name() == ident)
-            || self
-                .type_vars
-                .iter()
-                .any(|type_var| type_var.name.name() == ident)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name.name() == ident)
+            || (cfg.generate_classes
+                && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_functions
+                && self
+                    .functions
+                    .iter()
+                    .any(|function| function.name.name() == ident))
+            || (cfg.generate_type_vars
+                && self
+                    .type_vars
+                    .iter()
+                    .any(|type_var| type_var.name.name() == ident))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name.name() == ident))
     }
 }
-- 
2.43.0


From 3a7a1965e91adb8a3e0c88029724b43ca096f05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 30/42] fix: do not panic on imports from modules that cannot
 be imported or that have no name

---
 pyo3_bindgen_engine/src/codegen.rs       | 7 ++++---
 pyo3_bindgen_engine/src/syntax/module.rs | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 96c30fa..651dd05 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -205,7 +205,7 @@ impl Codegen {
             external_imports
                 .iter()
                 // Get the last valid module within the path of the import
-                .map(|import| {
+                .filter_map(|import| {
                     let mut last_module = py
                         .import_bound(
                             import
@@ -214,7 +214,7 @@ impl Codegen {
                                 .to_py()
                                 .as_str(),
                         )
-                        .unwrap();
+                        .ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
@@ -226,7 +226,8 @@ impl Codegen {
                             break;
                         }
                     }
-                    last_module
+                    // The name of the module must be known
+                    last_module.name().is_ok().then_some(last_module)
                 })
                 // Parse the module and add it to the module tree
                 .unique_by(|module| module.name().unwrap().to_string())
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index df8cb77..c14e44d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -55,7 +55,7 @@ impl Module {
         let py = module.py();
 
         // Extract the name of the module
-        let name = Path::from_py(&module.name().unwrap().to_string());
+        let name = Path::from_py(&module.name()?.to_string());
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
-- 
2.43.0


From 94e7e90a585609cba845ae65aa101e000bbccad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 31/42] fix: suppress the output of modules while they are
 imported as well

---
 pyo3_bindgen_engine/src/codegen.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 651dd05..12cd4fd 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -78,7 +78,12 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = py.import_bound(module_name)?;
+            let module = crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || Ok(py.import_bound(module_name)?),
+            )?;
             self.module(&module)
         })
     }
@@ -99,11 +104,18 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = pyo3::types::PyModule::from_code_bound(
+            let module = crate::io_utils::with_suppressed_python_output(
                 py,
-                source_code,
-                &format!("{module_name}/__init__.py"),
-                module_name,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || {
+                    Ok(pyo3::types::PyModule::from_code_bound(
+                        py,
+                        source_code,
+                        &format!("{module_name}/__init__.py"),
+                        module_name,
+                    )?)
+                },
             )?;
             self.module(&module)
         })
-- 
2.43.0


From 0191ee4850a1a397e2f949d558a2e93635a89f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 32/42] fix: do not give traits, getters and setters the names
 of other classes, modules or re-exports

---
 pyo3_bindgen_engine/src/syntax/class.rs  |  4 +-
 pyo3_bindgen_engine/src/syntax/import.rs |  4 ++
 pyo3_bindgen_engine/src/syntax/module.rs | 50 +++++++++++++++++-------
 3 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e6da219..cd9b309 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -145,6 +145,7 @@ impl Class {
     pub fn generate(
         &self,
         cfg: &Config,
+        scoped_type_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<proc_macro2::TokenStream> {
         let mut output = proc_macro2::TokenStream::new();
@@ -297,7 +298,8 @@ impl Class {
 
         // Add the trait and implementation block for bounded struct
         let trait_ident: syn::Ident =
-            Ident::from_py(&format!("{struct_ident}Methods")).try_into()?;
+            Function::numbered_ident(&format!("{struct_ident}Methods"), scoped_type_idents)
+                .try_into()?;
         let struct_ident_str = struct_ident.to_string();
         output.extend(quote::quote! {
             /// These methods are defined for the `Bound<'py, T>` smart pointer, so to use
diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index a3e3b5b..75bd3be 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -22,6 +22,10 @@ impl Import {
         self.import_type == ImportType::ExternalImport
     }
 
+    pub fn is_submodule_reexport(&self) -> bool {
+        self.import_type == ImportType::SubmoduleReexport && self.origin != self.target
+    }
+
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // For now, we only generate imports for submodule reexports
         if self.import_type != ImportType::SubmoduleReexport {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index c14e44d..c193568 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -349,11 +349,38 @@ impl Module {
             }
         }
 
-        // Get the names of all functions to avoid name clashes
+        // Get all imports that are re-exported
+        let reexports = self
+            .imports
+            .iter()
+            .filter(|import| {
+                cfg.generate_imports
+                    && import.is_submodule_reexport()
+                    && top_level_modules.iter().any(|module| {
+                        module.check_path_exists_recursive(cfg, &import.origin, false)
+                    })
+            })
+            .collect::<Vec<_>>();
+        // Get the names of all functions to avoid name clashes (re-exported functions and structs are in the same namespace)
         let scoped_function_idents = self
             .functions
             .iter()
             .map(|function| function.name.name())
+            .chain(reexports.iter().map(|import| import.target.name()))
+            .chain(
+                self.classes
+                    .iter()
+                    .filter(|_| cfg.generate_classes)
+                    .map(|class| class.name.name()),
+            )
+            .collect::<Vec<_>>();
+        // Get the names of all types to avoid name clashes
+        let scoped_type_idents = reexports
+            .iter()
+            .map(|import| import.target.name())
+            .chain(self.classes.iter().map(|class| class.name.name()))
+            .chain(self.type_vars.iter().map(|type_var| type_var.name.name()))
+            .chain(self.submodules.iter().map(|module| module.name.name()))
             .collect::<Vec<_>>();
         // Get the names of all properties to avoid name clashes with derived getters and setters
         let scoped_property_idents = self
@@ -397,19 +424,12 @@ impl Module {
         // Generate the module content
         let mut module_content = proc_macro2::TokenStream::new();
         // Imports
-        if cfg.generate_imports {
-            module_content.extend(
-                self.imports
-                    .iter()
-                    .filter(|import| {
-                        top_level_modules
-                            .iter()
-                            .any(|module| module.check_path_exists_recursive(cfg, &import.origin, false))
-                    })
-                    .map(|import| import.generate(cfg))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        module_content.extend(
+            reexports
+                .iter()
+                .map(|import| import.generate(cfg))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
         // Prelude
         if cfg.generate_preludes {
             module_content.extend(self.generate_prelude(cfg)?);
@@ -428,7 +448,7 @@ impl Module {
             module_content.extend(
                 self.classes
                     .iter()
-                    .map(|class| class.generate(cfg, &local_types))
+                    .map(|class| class.generate(cfg, &scoped_type_idents, &local_types))
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-- 
2.43.0


From 162c8198c4bb7e09a537aceba969e5ee08de642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:46 +0000
Subject: [PATCH 33/42] fix: do not fail due to submodules, type variables and
 aliases whose names are not Rust identifiers

---
 pyo3_bindgen_engine/src/syntax/import.rs   |  8 +++++++-
 pyo3_bindgen_engine/src/syntax/module.rs   | 12 ++++++++++++
 pyo3_bindgen_engine/src/syntax/type_var.rs |  8 +++++++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index 75bd3be..6c30bc6 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -57,7 +57,13 @@ impl Import {
             let maybe_alias = if self.origin.name() == self.target.name() {
                 proc_macro2::TokenStream::new()
             } else {
-                let alias: syn::Ident = self.target.name().try_into()?;
+                let Ok(alias) = syn::Ident::try_from(self.target.name()) else {
+                    eprintln!(
+                        "WARN: Import '{}' is an invalid Rust ident. Bindings will not be generated.",
+                        self.target
+                    );
+                    return Ok(proc_macro2::TokenStream::new());
+                };
                 quote::quote! { as #alias }
             };
 
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index c193568..5a6981d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -583,6 +583,18 @@ impl Module {
                     )
                 })
             })
+            // Skip submodules that cannot be represented by a Rust module
+            .filter(|submodule_name| {
+                submodule_name.as_ref().is_ok_and(|submodule_name| {
+                    let is_valid = syn::Ident::try_from(submodule_name).is_ok();
+                    if !is_valid {
+                        eprintln!(
+                            "WARN: Submodule '{submodule_name}' of '{module_name}' is an invalid Rust ident. Bindings will not be generated.",
+                        );
+                    }
+                    is_valid
+                })
+            })
             .collect()
     }
 
diff --git a/pyo3_bindgen_engine/src/syntax/type_var.rs b/pyo3_bindgen_engine/src/syntax/type_var.rs
index 7813c58..e9a5b27 100644
--- a/pyo3_bindgen_engine/src/syntax/type_var.rs
+++ b/pyo3_bindgen_engine/src/syntax/type_var.rs
@@ -12,7 +12,13 @@ impl TypeVar {
     }
 
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
-        let typevar_ident: syn::Ident = self.name.name().try_into()?;
+        let Ok(typevar_ident) = syn::Ident::try_from(self.name.name()) else {
+            eprintln!(
+                "WARN: Type variable '{}' is an invalid Rust ident. Bindings will not be generated.",
+                self.name
+            );
+            return Ok(proc_macro2::TokenStream::new());
+        };
         Ok(quote::quote! {
             pub type #typevar_ident = ::pyo3::types::PyAny;
         })
-- 
2.43.0


From 43a3eaf8e784d0428079c7f31fc07f35973d400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 34/42] fix: do not panic if attributes or types have empty
 names or unusual modules, and recognise closures

---
 pyo3_bindgen_engine/src/syntax/class.rs                   | 2 ++
 .../src/syntax/common/attribute_variant.rs                | 8 ++++----
 pyo3_bindgen_engine/src/syntax/common/path.rs             | 1 -
 pyo3_bindgen_engine/src/syntax/module.rs                  | 4 ++++
 4 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index cd9b309..283c584 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -33,6 +33,8 @@ impl Class {
         class
             .dir()
             .iter()
+            // Skip attributes without a name
+            .filter(|attr_name| !attr_name.to_string().is_empty())
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
             .unique()
diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 80317fb..0cc5be3 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -1,5 +1,5 @@
 use crate::{
-    syntax::{Ident, Path},
+    syntax::Path,
     Result,
 };
 use pyo3::prelude::*;
@@ -27,7 +27,7 @@ impl AttributeVariant {
         let inspect = py.import_bound("inspect")?;
 
         // Get the name and module of the attribute type
-        let attr_type_name = Ident::from_py(&attr_type.name().unwrap_or_default());
+        let attr_type_name = attr_type.name().unwrap_or_default();
         let attr_type_module = Path::from_py(
             &attr_type
                 .getattr(pyo3::intern!(py, "__module__"))
@@ -51,8 +51,8 @@ impl AttributeVariant {
         let is_method = inspect
             .call_method1(pyo3::intern!(py, "ismethod"), (attr,))?
             .is_truthy()?;
-        let is_closure =
-            attr_type_module.to_py().as_str() == "functools" && attr_type_name.as_py() == "partial";
+        let is_closure = attr_type_module.to_py().as_str() == "functools"
+            && ["partial", "functools.partial"].contains(&attr_type_name.as_ref());
         let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
 
         // Some decorators might make a class look external, but they tend to include "<locals>" in their name
diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 40cbb05..56d52c7 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -27,7 +27,6 @@ impl Path {
         if value.is_empty() {
             return Self::default();
         }
-        debug_assert!(!value.contains("::"), "Invalid Python path: {value}");
         Self {
             leading_colon: false,
             segments: std::iter::repeat(Ident::from_rs("super"))
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 5a6981d..bb1ae10 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -86,6 +86,8 @@ impl Module {
         module
             .dir()
             .iter()
+            // Skip attributes without a name
+            .filter(|attr_name| !attr_name.to_string().is_empty())
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
             // Remove duplicates
@@ -607,6 +609,7 @@ impl Module {
         let mut index_attr_names = if let Ok(index) = module.index() {
             index
                 .iter()
+                .filter(|x| !x.to_string().is_empty())
                 .map(|x| Ident::from_py(&x.to_string()))
                 .unique()
                 .collect()
@@ -620,6 +623,7 @@ impl Module {
             let public_attr_names_set: HashSet<_> = module
                 .dir()
                 .iter()
+                .filter(|attr_name| !attr_name.to_string().is_empty())
                 .map(|attr_name| Ident::from_py(&attr_name.to_string()))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
                 .collect();
-- 
2.43.0


From 7870a48ac95db9f39efa2e73e5ffc8bc2a828c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 35/42] fix: do not give submodules and renamed items the names
 of other items

---
 pyo3_bindgen_engine/src/syntax/class.rs    | 12 ++++++---
 pyo3_bindgen_engine/src/syntax/function.rs | 11 +++++---
 pyo3_bindgen_engine/src/syntax/module.rs   | 30 +++++++++++++++++++++-
 3 files changed, 44 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 283c584..915c635 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -148,6 +148,7 @@ impl Class {
         &self,
         cfg: &Config,
         scoped_type_idents: &[&Ident],
+        scoped_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<proc_macro2::TokenStream> {
         let mut output = proc_macro2::TokenStream::new();
@@ -169,10 +170,13 @@ impl Class {
                 ident
             } else {
                 // Sanitize the struct name
-                let new_name = Ident::from_py(&format!(
-                    "s_{}",
-                    name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
-                ));
+                let new_name = Function::numbered_ident(
+                    &format!(
+                        "s_{}",
+                        name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
+                    ),
+                    scoped_idents,
+                );
                 if let Ok(sanitized_ident) = new_name.clone().try_into() {
                     eprintln!(
                         "WARN: Struct '{}' is an invalid Rust ident for a struct name. Renamed to '{}'.",
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index e29fcf5..58cfa87 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -371,10 +371,13 @@ impl Function {
                 }
             } else {
                 // Sanitize the function name
-                let new_name = Ident::from_py(&format!(
-                    "f_{}",
-                    name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
-                ));
+                let new_name = Self::numbered_ident(
+                    &format!(
+                        "f_{}",
+                        name.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
+                    ),
+                    scoped_function_idents,
+                );
                 if let Ok(sanitized_ident) = new_name.clone().try_into() {
                     eprintln!(
                         "WARN: Function '{}' is an invalid Rust ident for a function name. Renamed to '{}'.",
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index bb1ae10..a8a1f52 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -210,6 +210,24 @@ impl Module {
                 Result::Ok(())
             })?;
 
+        // Skip submodules that share their name with another type of the module
+        submodules_to_process.retain(|submodule_name| {
+            let is_overwritten = (cfg.generate_classes
+                && classes
+                    .iter()
+                    .any(|class| class.name.name() == submodule_name))
+                || (cfg.generate_type_vars
+                    && type_vars
+                        .iter()
+                        .any(|type_var: &TypeVar| type_var.name.name() == submodule_name));
+            if is_overwritten {
+                eprintln!(
+                    "WARN: Submodule '{submodule_name}' of '{name}' is overwritten by another type. Bindings will not be generated.",
+                );
+            }
+            !is_overwritten
+        });
+
         // Process submodules
         let submodules = if cfg.traverse_submodules {
             submodules_to_process
@@ -391,6 +409,14 @@ impl Module {
             .map(|property| property.name.name())
             .collect::<Vec<_>>();
 
+        // Get the names that are not available for items that have to be renamed
+        let scoped_idents = scoped_function_idents
+            .iter()
+            .chain(&scoped_type_idents)
+            .chain(&scoped_property_idents)
+            .copied()
+            .collect::<Vec<_>>();
+
         // Get all local types mapped to the full path
         let local_types = all_types
             .iter()
@@ -450,7 +476,9 @@ impl Module {
             module_content.extend(
                 self.classes
                     .iter()
-                    .map(|class| class.generate(cfg, &scoped_type_idents, &local_types))
+                    .map(|class| {
+                        class.generate(cfg, &scoped_type_idents, &scoped_idents, &local_types)
+                    })
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-- 
2.43.0


From c2706b38ad274b6816a004e6d0e1934cc0249c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 36/42] fix: do not confuse attributes that are called `super`
 with relative paths

---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 56d52c7..18ff306 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -60,8 +60,10 @@ impl Path {
     pub fn to_py(&self) -> String {
         self.segments
             .iter()
-            .map(Ident::as_py)
-            .map(|s| if s == "super" { "" } else { s })
+            .map(|ident| match ident.as_rs() {
+                "super" => "",
+                _ => ident.as_py(),
+            })
             .collect_vec()
             .join(".")
     }
-- 
2.43.0


From af0c29489210060d8726b450e2833542e56ebc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:16 +0000
Subject: [PATCH 37/42] fix: do not panic if attributes cannot be listed, and
 accept any iterable as the index of a module

---
 pyo3_bindgen_engine/src/syntax/class.rs  |  3 +--
 pyo3_bindgen_engine/src/syntax/module.rs | 27 +++++++++++-------------
 pyo3_bindgen_engine/src/utils/mod.rs     |  1 +
 pyo3_bindgen_engine/src/utils/py.rs      | 12 +++++++++++
 4 files changed, 26 insertions(+), 17 deletions(-)
 create mode 100644 pyo3_bindgen_engine/src/utils/py.rs

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 915c635..ebfc318 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -30,8 +30,7 @@ impl Class {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        class
-            .dir()
+        crate::utils::py::dir(class)?
             .iter()
             // Skip attributes without a name
             .filter(|attr_name| !attr_name.to_string().is_empty())
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index a8a1f52..022ee42 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -83,8 +83,7 @@ impl Module {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        module
-            .dir()
+        crate::utils::py::dir(module)?
             .iter()
             // Skip attributes without a name
             .filter(|attr_name| !attr_name.to_string().is_empty())
@@ -634,22 +633,20 @@ impl Module {
         module_name: &Path,
     ) -> Vec<Ident> {
         // Extract the index (__all__) of the module if it exists
-        let mut index_attr_names = if let Ok(index) = module.index() {
-            index
-                .iter()
-                .filter(|x| !x.to_string().is_empty())
-                .map(|x| Ident::from_py(&x.to_string()))
-                .unique()
-                .collect()
-        } else {
-            Vec::default()
-        };
+        let mut index_attr_names = module
+            .getattr(pyo3::intern!(module.py(), "__all__"))
+            .and_then(|index| index.iter()?.collect::<PyResult<Vec<_>>>())
+            .unwrap_or_default()
+            .iter()
+            .filter(|x| !x.to_string().is_empty())
+            .map(|x| Ident::from_py(&x.to_string()))
+            .unique()
+            .collect_vec();
 
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
-        {
-            let public_attr_names_set: HashSet<_> = module
-                .dir()
+        if let Ok(attr_names) = crate::utils::py::dir(module) {
+            let public_attr_names_set: HashSet<_> = attr_names
                 .iter()
                 .filter(|attr_name| !attr_name.to_string().is_empty())
                 .map(|attr_name| Ident::from_py(&attr_name.to_string()))
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 2620963..1b67fcd 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -2,5 +2,6 @@
 
 pub mod error;
 pub(crate) mod io;
+pub(crate) mod py;
 pub mod result;
 pub(crate) mod text;
diff --git a/pyo3_bindgen_engine/src/utils/py.rs b/pyo3_bindgen_engine/src/utils/py.rs
new file mode 100644
index 0000000..8d55498
--- /dev/null
+++ b/pyo3_bindgen_engine/src/utils/py.rs
@@ -0,0 +1,12 @@
+use crate::Result;
+use pyo3::prelude::*;
+
+/// List the names of all attributes of the object, which is not possible if its `__dir__` raises an exception.
+pub fn dir<'py>(object: &Bound<'py, PyAny>) -> Result<Bound<'py, pyo3::types::PyList>> {
+    let py = object.py();
+    Ok(py
+        .import_bound(pyo3::intern!(py, "builtins"))?
+        .call_method1(pyo3::intern!(py, "dir"), (object,))?
+        .downcast_into()
+        .map_err(PyErr::from)?)
+}
-- 
2.43.0


From 203b8815d4a62691d44b105c4cdefff4e49f1128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 38/42] fix: documentation that is the text "None" was lost

---
 pyo3_bindgen_engine/src/syntax/class.rs    |  9 +--------
 pyo3_bindgen_engine/src/syntax/function.rs |  9 +--------
 pyo3_bindgen_engine/src/syntax/module.rs   | 16 ++--------------
 pyo3_bindgen_engine/src/syntax/property.rs | 20 ++------------------
 pyo3_bindgen_engine/src/utils/py.rs        |  9 +++++++++
 5 files changed, 15 insertions(+), 48 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index ebfc318..7e6545b 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -125,14 +125,7 @@ impl Class {
             })?;
 
         // Extract the docstring of the class
-        let docstring = {
-            let docstring = class.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::py::docstring(class)?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 58cfa87..f5fd1ce 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -41,14 +41,7 @@ impl Function {
         let py = function.py();
 
         // Extract the docstring of the function
-        let docstring = {
-            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::py::docstring(function)?;
 
         // Extract the signature of the function
         if let Ok(function_signature) = py
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 022ee42..fe624fe 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -26,12 +26,7 @@ impl Module {
     pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
         // Extract the docstring of the module (it might not exist if its submodule was created from source code)
         let docstring = if let Ok(module) = py.import_bound(name.to_py().as_str()) {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
+            crate::utils::py::docstring(&module)?
         } else {
             None
         };
@@ -310,14 +305,7 @@ impl Module {
         };
 
         // Extract the docstring of the module
-        let docstring = {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
-                None
-            } else {
-                Some(docstring)
-            }
-        };
+        let docstring = crate::utils::py::docstring(module)?;
 
         Ok(Self {
             name,
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 360f21d..ad10358 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -70,15 +70,7 @@ impl Property {
 
                     // Update the docstring if it is empty
                     if docstring.is_none() {
-                        docstring = {
-                            let docstring =
-                                getter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        docstring = crate::utils::py::docstring(&getter)?;
                     }
                 } else {
                     annotation = Type::try_from(typ)?;
@@ -111,15 +103,7 @@ impl Property {
                             setter_annotation = Type::Unknown;
                         }
 
-                        setter_docstring = {
-                            let docstring =
-                                setter.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-                            if docstring.is_empty() || docstring == "None" {
-                                None
-                            } else {
-                                Some(docstring)
-                            }
-                        };
+                        setter_docstring = crate::utils::py::docstring(&setter)?;
 
                         if docstring.is_none() {
                             // Update the getter docstring to match setter docstring if it is still empty
diff --git a/pyo3_bindgen_engine/src/utils/py.rs b/pyo3_bindgen_engine/src/utils/py.rs
index 8d55498..cbe44fc 100644
--- a/pyo3_bindgen_engine/src/utils/py.rs
+++ b/pyo3_bindgen_engine/src/utils/py.rs
@@ -10,3 +10,12 @@ pub fn dir<'py>(object: &Bound<'py, PyAny>) -> Result<Bound<'py, pyo3::types::Py
         .downcast_into()
         .map_err(PyErr::from)?)
 }
+
+/// Docstring of the object, if it has one. Note that it can be any text, including `None`.
+pub fn docstring(object: &Bound<'_, PyAny>) -> Result<Option<String>> {
+    let docstring = object.getattr(pyo3::intern!(object.py(), "__doc__"))?;
+    Ok(Some(docstring)
+        .filter(|docstring| !docstring.is_none())
+        .map(|docstring| docstring.to_string())
+        .filter(|docstring| !docstring.is_empty()))
+}
-- 
2.43.0


From 51c361f86353468c73fbd4df489c9a6032d96cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 39/42] fix: do not add keyword-only arguments to the
 dictionary of the caller

---
 pyo3_bindgen_engine/src/syntax/function.rs | 2 +-
 pyo3_bindgen_engine/src/syntax/module.rs   | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index f5fd1ce..33da689 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -590,7 +590,7 @@ impl Function {
             } else {
                 quote::quote! {
                     {
-                        let __internal__kwargs = #var_keyword_args_ident;
+                        let __internal__kwargs = ::pyo3::types::PyDictMethods::copy(&#var_keyword_args_ident)?;
                         #(
                             ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
                         )*
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index fe624fe..8b03d42 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -772,8 +772,7 @@ impl Module {
                 .submodules
                 .iter()
                 .any(|module| module.name.name() == ident)
-            || (cfg.generate_classes
-                && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name.name() == ident))
             || (cfg.generate_functions
                 && self
                     .functions
-- 
2.43.0


From 41b8c8d79146d615e0986291f4dddf37c6e14fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 40/42] fix: bind methods whose signature cannot be determined

---
 pyo3_bindgen_engine/src/syntax/function.rs | 118 ++++++++++-----------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 33da689..e3ee3b4 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -43,6 +43,65 @@ impl Function {
         // Extract the docstring of the function
         let docstring = crate::utils::py::docstring(function)?;
 
+        // If marked as an unknown method, try to infer the method type
+        let mut is_method_type_explicit = false;
+        match &typ {
+            FunctionType::Method {
+                class_path,
+                typ: method_typ,
+            } if *method_typ == MethodType::Unknown => {
+                // Get the class object from its class path
+                let class = py
+                    .import_bound(
+                        class_path
+                            .root()
+                            .unwrap_or_else(|| unreachable!())
+                            .to_py()
+                            .as_str(),
+                    )
+                    .and_then(|root_module| {
+                        class_path.iter().skip(1).try_fold(
+                            root_module.extract::<&pyo3::types::PyAny>()?,
+                            |module, name| module.getattr(name.as_py()),
+                        )
+                    });
+
+                // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
+                if let Ok(static_fn_obj) = class.and_then(|class| {
+                    class
+                        .getattr(pyo3::intern!(py, "__dict__"))?
+                        .get_item(name.name().as_py())
+                }) {
+                    let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
+                    let method_type = if py
+                        .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
+                        .is_truthy()?
+                    {
+                        MethodType::ClassMethod
+                    } else if py
+                        .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
+                        .is_truthy()?
+                    {
+                        MethodType::StaticMethod
+                    } else {
+                        MethodType::InstanceMethod
+                    };
+                    is_method_type_explicit = true;
+                    typ = FunctionType::Method {
+                        class_path: class_path.clone(),
+                        typ: method_type,
+                    };
+                } else {
+                    // Cannot determine the method type, default to static method (will be changed to instance method if the first parameter is named 'self')
+                    typ = FunctionType::Method {
+                        class_path: class_path.clone(),
+                        typ: MethodType::StaticMethod,
+                    };
+                }
+            }
+            _ => {}
+        };
+
         // Extract the signature of the function
         if let Ok(function_signature) = py
             .import_bound(pyo3::intern!(py, "inspect"))?
@@ -106,65 +165,6 @@ impl Function {
                 }
             };
 
-            // If marked as an unknown method, try to infer the method type
-            let mut is_method_type_explicit = false;
-            match &typ {
-                FunctionType::Method {
-                    class_path,
-                    typ: method_typ,
-                } if *method_typ == MethodType::Unknown => {
-                    // Get the class object from its class path
-                    let class = py
-                        .import_bound(
-                            class_path
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
-                        .and_then(|root_module| {
-                            class_path.iter().skip(1).try_fold(
-                                root_module.extract::<&pyo3::types::PyAny>()?,
-                                |module, name| module.getattr(name.as_py()),
-                            )
-                        });
-
-                    // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
-                    if let Ok(static_fn_obj) = class.and_then(|class| {
-                        class
-                            .getattr(pyo3::intern!(py, "__dict__"))?
-                            .get_item(name.name().as_py())
-                    }) {
-                        let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
-                        let method_type = if py
-                            .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
-                            .is_truthy()?
-                        {
-                            MethodType::ClassMethod
-                        } else if py
-                            .eval_bound("isinstance(obj, staticmethod)", None, Some(&locals))?
-                            .is_truthy()?
-                        {
-                            MethodType::StaticMethod
-                        } else {
-                            MethodType::InstanceMethod
-                        };
-                        is_method_type_explicit = true;
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: method_type,
-                        };
-                    } else {
-                        // Cannot determine the method type, default to static method (will be changed to instance method if the first parameter is named 'self')
-                        typ = FunctionType::Method {
-                            class_path: class_path.clone(),
-                            typ: MethodType::StaticMethod,
-                        };
-                    }
-                }
-                _ => {}
-            };
-
             // As a final step in determining the method type, check parameters for all non-instance/callable methods
             // Note: This is not 100% reliable, because Python does not enforce the first parameter to be named "self"
             // TODO: See if there is a better way to infer the method type from parameters alone
-- 
2.43.0


From 5858006f855507e9c8eec7fcdbaaae4eea97310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 41/42] fix: determine the kind of inherited methods

---
 pyo3_bindgen_engine/src/syntax/function.rs | 29 +++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index e3ee3b4..835c028 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -66,16 +66,27 @@ impl Function {
                         )
                     });
 
-                // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
-                if let Ok(static_fn_obj) = class.and_then(|class| {
-                    class
-                        .getattr(pyo3::intern!(py, "__dict__"))?
-                        .get_item(name.name().as_py())
-                }) {
+                // Try to get the static object of the method (from __dict__ of the class or of the base it is inherited from), which still contains information about what kind of method it is
+                let static_fn_obj = class
+                    .and_then(|class| class.getattr(pyo3::intern!(py, "__mro__"))?.iter())
+                    .ok()
+                    .and_then(|mut bases| {
+                        bases.find_map(|base| {
+                            base.and_then(|base| {
+                                base.getattr(pyo3::intern!(py, "__dict__"))?
+                                    .get_item(name.name().as_py())
+                            })
+                            .ok()
+                        })
+                    });
+                if let Some(static_fn_obj) = static_fn_obj {
+                    let is_builtin_class_method =
+                        static_fn_obj.get_type().name()? == "classmethod_descriptor";
                     let locals = [("obj", static_fn_obj)].into_py_dict_bound(py);
-                    let method_type = if py
-                        .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
-                        .is_truthy()?
+                    let method_type = if is_builtin_class_method
+                        || py
+                            .eval_bound("isinstance(obj, classmethod)", None, Some(&locals))?
+                            .is_truthy()?
                     {
                         MethodType::ClassMethod
                     } else if py
-- 
2.43.0


From 41d3658dbc83a4d90d95ca1c799ab0adb0a4cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:18 +0000
Subject: [PATCH 42/42] fix: ignore white space within annotations that are
 strings

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 771ec1f..fe708d4 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -214,7 +214,7 @@ impl Type {
 impl std::str::FromStr for Type {
     type Err = PyBindgenError;
     fn from_str(value: &str) -> Result<Self> {
-        Ok(match value {
+        Ok(match value.trim() {
             "Any" => Self::PyAny,
 
             // Primitives
-- 
2.43.0

