From c4a7282ac98be93b210c7049eef00927e37f86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:40 +0000
Subject: [PATCH 01/23] fix: delete exactly the named session path and
 everything below it

---
 src/oidcop/session/database.py | 57 ++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 24 deletions(-)

diff --git a/src/oidcop/session/database.py b/src/oidcop/session/database.py
index 8f4e79e..08df0ad 100644
--- a/src/oidcop/session/database.py
+++ b/src/oidcop/session/database.py
@@ -130,42 +130,51 @@ class Database(ImpExp):
 
         if uid not in self.db:
             return
-        elif not client_id:
-            self.db.__delitem__(uid)
-            return
 
         _user_info = self.db[uid]
-        skey_uid_client = self.session_key(uid, client_id)
-        skey_uid_client_grant = self.session_key(uid, client_id, grant_id or "")
+        if not client_id:
+            for _cid in _user_info.subordinate:
+                self._delete_client(uid, _cid)
+            self.db.__delitem__(uid)
+            return
 
         if client_id not in _user_info.subordinate:
-            self.db.__delitem__(client_id)
             return
 
-        elif skey_uid_client in self.db:
-            _client_info = self.db[skey_uid_client]
-            if grant_id:
-                if skey_uid_client_grant in self.db:
-                    self.db.__delitem__(skey_uid_client_grant)
-                if grant_id in _client_info.subordinate:
-                    _client_info.subordinate.remove(grant_id)
-            else:
-                for grant_id in _client_info.subordinate:
-                    if skey_uid_client_grant in self.db:
-                        self.db.__delitem__(skey_uid_client_grant)
-                _client_info.subordinate = []
-
-            if len(_client_info.subordinate) == 0:
-                self.db.__delitem__(skey_uid_client)
-                _user_info.subordinate.remove(client_id)
-            else:
-                self.db[client_id] = _client_info
+        skey_uid_client = self.session_key(uid, client_id)
+        if grant_id:
+            _client_info = self.db.get(skey_uid_client)
+            if _client_info is None or grant_id not in _client_info.subordinate:
+                return
+
+            skey_uid_client_grant = self.session_key(uid, client_id, grant_id)
+            if skey_uid_client_grant in self.db:
+                self.db.__delitem__(skey_uid_client_grant)
+            _client_info.subordinate.remove(grant_id)
+            if len(_client_info.subordinate) > 0:
+                self.db[skey_uid_client] = _client_info
+                return
+
+        self._delete_client(uid, client_id)
+        _user_info.subordinate.remove(client_id)
 
         if len(_user_info.subordinate) == 0:
             self.db.__delitem__(uid)
         else:
             self.db[uid] = _user_info
 
+    def _delete_client(self, uid: str, client_id: str):
+        """
+        Removes a client session and all the grants below it.
+        """
+        skey_uid_client = self.session_key(uid, client_id)
+        if skey_uid_client in self.db:
+            for grant_id in self.db[skey_uid_client].subordinate:
+                skey_uid_client_grant = self.session_key(uid, client_id, grant_id)
+                if skey_uid_client_grant in self.db:
+                    self.db.__delitem__(skey_uid_client_grant)
+            self.db.__delitem__(skey_uid_client)
+
     def update(self, path: List[str], new_info: dict):
         _info = self.get(path)
         for key, val in new_info.items():
-- 
2.43.0


From f0dcb55e6c635ceda4fec5df385009b7a8abf04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:23 +0000
Subject: [PATCH 02/23] fix: record issued tokens and added grants under their
 own session path only

---
 src/oidcop/oauth2/authorization.py | 2 +-
 src/oidcop/oauth2/token.py         | 2 +-
 src/oidcop/session/manager.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 86b7ce8..cc2e0a3 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -344,7 +344,7 @@ class Authorization(Endpoint):
             token.expires_at = utc_time_sans_frac() + _exp_in
 
         _mngr = self.server_get("endpoint_context").session_manager
-        _mngr.set(_mngr.unpack_session_key(session_id), grant)
+        _mngr[session_id] = grant
 
         return token
 
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index bfee6df..b1279a9 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -91,7 +91,7 @@ class TokenEndpointHelper(object):
             if _exp_in:
                 token.expires_at = utc_time_sans_frac() + _exp_in
 
-        _context.session_manager.set(_context.session_manager.unpack_session_key(session_id), grant)
+        _context.session_manager[session_id] = grant
 
         return token
 
diff --git a/src/oidcop/session/manager.py b/src/oidcop/session/manager.py
index 3bddebc..4813304 100644
--- a/src/oidcop/session/manager.py
+++ b/src/oidcop/session/manager.py
@@ -523,7 +523,7 @@ class SessionManager(Database):
         _grant = Grant(**args)
         self.set([user_id, client_id, _grant.id], _grant)
         _client_session_info = self.get([user_id, client_id])
-        _client_session_info.subordinate.append(_grant.id)
+        _client_session_info.add_subordinate(_grant.id)
         self.set([user_id, client_id], _client_session_info)
         return _grant
 
-- 
2.43.0


From 76368f3aed547819e11432be9fc9519d3a2b60fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:19 +0000
Subject: [PATCH 03/23] fix: revoking a grant revokes the tokens issued under
 it

---
 src/oidcop/session/grant.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index a7c6f8d..87f63af 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -358,6 +358,11 @@ class Grant(Item):
                 return t
         return None
 
+    def revoke(self):
+        """Revoke the grant and everything that has been issued under it."""
+        super().revoke()
+        self.revoke_token()
+
     def revoke_token(
         self, value: Optional[str] = "", based_on: Optional[str] = "", recursive: bool = True
     ):
-- 
2.43.0


From aede11fe0ff8d14e407cf6236cfc3c7e604b7731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:19 +0000
Subject: [PATCH 04/23] fix: revoke recursively also when both value and base
 are given

---
 src/oidcop/session/grant.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 87f63af..74597f8 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -372,6 +372,8 @@ class Grant(Item):
             elif value and based_on:
                 if value == t.value and based_on == t.based_on:
                     t.revoked = True
+                    if recursive:
+                        self.revoke_token(based_on=t.value)
             elif value and t.value == value:
                 t.revoked = True
                 if recursive:
-- 
2.43.0


From 24ea36932842a99dbbdea2c52ab1191fa38823ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:22 +0000
Subject: [PATCH 05/23] fix: a token that a handler cannot parse is not that
 handler's token

---
 src/oidcop/token/handler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/token/handler.py b/src/oidcop/token/handler.py
index c4fb238..478aa2d 100755
--- a/src/oidcop/token/handler.py
+++ b/src/oidcop/token/handler.py
@@ -3,7 +3,7 @@ import os
 from typing import Optional
 import warnings
 
-from cryptojwt.exception import Invalid
+from cryptojwt.exception import JWKESTException
 from cryptojwt.key_jar import init_key_jar
 from cryptojwt.utils import as_unicode
 from oidcmsg.impexp import ImpExp
@@ -71,7 +71,15 @@ class TokenHandler(ImpExp):
         for typ in order:
             try:
                 res = self.handler[typ].info(token)
-            except (KeyError, TokenException, Invalid, AttributeError):
+            except (
+                KeyError,
+                IndexError,
+                TypeError,
+                ValueError,
+                AttributeError,
+                TokenException,
+                JWKESTException,
+            ):
                 pass
             else:
                 return self.handler[typ], res
-- 
2.43.0


From 3d262002d07157ab4b4f55026e3c96097ab65e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:23 +0000
Subject: [PATCH 06/23] fix: introspection of a token without a live session
 answers inactive

---
 src/oidcop/oauth2/introspection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index c298c12..b2470be 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -5,6 +5,7 @@ from typing import Optional
 from oidcmsg import oauth2
 
 from oidcop.endpoint import Endpoint
+from oidcop.exception import ToOld
 from oidcop.token.exception import UnknownToken
 from oidcop.token.exception import WrongTokenClass
 
@@ -95,11 +96,13 @@ class Introspection(Endpoint):
             _session_info = _context.session_manager.get_session_info_by_token(
                 request_token, grant=True
             )
-        except (UnknownToken, WrongTokenClass):
+        except (UnknownToken, WrongTokenClass, ToOld, KeyError, ValueError):
             return {"response_args": _resp}
 
         grant = _session_info["grant"]
         _token = grant.get_token(request_token)
+        if _token is None:
+            return {"response_args": _resp}
 
         _info = self._introspect(_token, _session_info["client_id"], _session_info["grant"])
         if _info is None:
-- 
2.43.0


From 851df1013065ce24c884a97655c0d5bf411e88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:23 +0000
Subject: [PATCH 07/23] fix: userinfo refuses a token that its grant does not
 know

---
 src/oidcop/oidc/userinfo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcop/oidc/userinfo.py b/src/oidcop/oidc/userinfo.py
index 6e6ce97..728e4dc 100755
--- a/src/oidcop/oidc/userinfo.py
+++ b/src/oidcop/oidc/userinfo.py
@@ -118,7 +118,7 @@ class UserInfo(Endpoint):
         _grant = _session_info["grant"]
         token = _grant.get_token(request["access_token"])
         # should be an access token
-        if token and token.token_class != "access_token":
+        if token is None or token.token_class != "access_token":
             return self.error_cls(error="invalid_token", error_description="Wrong type of token")
 
         # And it should be valid
-- 
2.43.0


From 0e98c3367d3de4206e696917f78b45577c7b126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:31 +0000
Subject: [PATCH 08/23] fix: introspection lets no user claim replace what is
 said about the token

---
 src/oidcop/oauth2/introspection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/oauth2/introspection.py b/src/oidcop/oauth2/introspection.py
index b2470be..6056c76 100644
--- a/src/oidcop/oauth2/introspection.py
+++ b/src/oidcop/oauth2/introspection.py
@@ -124,7 +124,10 @@ class Introspection(Endpoint):
                 _session_info["user_id"], _claims_restriction
             )
             if user_info:
-                _resp.update(user_info)
+                # User claims must never take the place of what is said about the token
+                _resp.update(
+                    {k: v for k, v in user_info.items() if k not in self.response_cls.c_param}
+                )
 
         _resp["active"] = True
 
-- 
2.43.0


From 931d76d5518f942c42c97bc5c19d94ba78ae0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:42 +0000
Subject: [PATCH 09/23] fix: match redirect URIs exactly: blank query values,
 control characters, empty fragment, the session's client

---
 src/oidcop/oauth2/authorization.py | 8 ++++++--
 src/oidcop/util.py                 | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index cc2e0a3..7fecc16 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -106,7 +106,7 @@ def verify_uri(
     :return: An error response if the redirect URI is faulty otherwise
         None
     """
-    _cid = request.get("client_id", client_id)
+    _cid = client_id or request.get("client_id")
 
     if not _cid:
         logger.error("No client id found")
@@ -118,8 +118,12 @@ def verify_uri(
 
     _redirect_uri = unquote(_uri)
 
+    # Control characters and initial blanks are dropped when a URI is split
+    if not _redirect_uri.isprintable() or _redirect_uri.startswith(" "):
+        raise URIError("Contains unprintable characters")
+
     part = urlparse(_redirect_uri)
-    if part.fragment:
+    if part.fragment or "#" in _redirect_uri:
         raise URIError("Contains fragment")
 
     (_base, _query) = split_uri(_redirect_uri)
diff --git a/src/oidcop/util.py b/src/oidcop/util.py
index 5800405..420527c 100755
--- a/src/oidcop/util.py
+++ b/src/oidcop/util.py
@@ -190,7 +190,7 @@ def split_uri(uri):
     if p.query:
         o = p._replace(query="")
         base = urlunsplit(o)
-        return base, parse_qs(p.query)
+        return base, parse_qs(p.query, keep_blank_values=True)
     else:
         base = urlunsplit(p)
         return base, ""
-- 
2.43.0


From 1d6f8fdbb65dce88fb530f0cbc93b479ef9bd449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:58 +0000
Subject: [PATCH 10/23] fix: usage rules handed to a session are copies of the
 configured ones

---
 src/oidcop/authz/__init__.py | 4 +++-
 src/oidcop/session/grant.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/authz/__init__.py b/src/oidcop/authz/__init__.py
index 72b6979..c610ccf 100755
--- a/src/oidcop/authz/__init__.py
+++ b/src/oidcop/authz/__init__.py
@@ -30,7 +30,9 @@ class AuthzHandling(object):
             return _usage_rules
 
         try:
-            _per_client = self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            _per_client = copy.deepcopy(
+                self.server_get("endpoint_context").cdb[client_id]["token_usage_rules"]
+            )
         except KeyError:
             pass
         else:
diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index 74597f8..b0791c8 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -1,3 +1,4 @@
+import copy
 import logging
 from typing import Dict
 from typing import List
@@ -434,7 +435,7 @@ def get_usage_rules(token_type, endpoint_context, grant, client_id):
 
     _usage = endpoint_context.authz.usage_rules_for(client_id, token_type)
     if not _usage:
-        _usage = DEFAULT_USAGE[token_type]
+        _usage = copy.deepcopy(DEFAULT_USAGE[token_type])
 
     _grant_usage = grant.usage_rules.get(token_type)
     if _grant_usage:
-- 
2.43.0


From e2de6054e1a4108cb230ab9a72b585c1e3f47325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 11/23] fix: a client's empty scope map lists no claims

---
 src/oidcop/scopes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/scopes.py b/src/oidcop/scopes.py
index 97bdf9c..3baf6fe 100644
--- a/src/oidcop/scopes.py
+++ b/src/oidcop/scopes.py
@@ -26,7 +26,8 @@ SCOPE2CLAIMS = {
 
 
 def convert_scopes2claims(scopes, allowed_claims=None, scope2claim_map=None):
-    scope2claim_map = scope2claim_map or SCOPE2CLAIMS
+    if scope2claim_map is None:
+        scope2claim_map = SCOPE2CLAIMS
 
     res = {}
     if allowed_claims is None:
@@ -93,7 +94,7 @@ class Scopes:
         return [s for s in scopes if s in allowed_scopes]
 
     def scopes_to_claims(self, scopes, scopes_to_claims=None, client_id=None):
-        if not scopes_to_claims:
+        if scopes_to_claims is None:
             scopes_to_claims = self.get_scopes_mapping(client_id)
 
         scopes = self.filter_scopes(scopes, client_id)
-- 
2.43.0


From eaca403cc55cdbaf86f0b3ecaa75dbd7ee4e1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:17 +0000
Subject: [PATCH 12/23] fix: computing the claims to release does not change
 the client's configuration

---
 src/oidcop/session/claims.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcop/session/claims.py b/src/oidcop/session/claims.py
index bcea058..e00a9d3 100755
--- a/src/oidcop/session/claims.py
+++ b/src/oidcop/session/claims.py
@@ -82,7 +82,8 @@ class ClaimsInterface:
         _always_add = add_claims_always.get(claims_release_point, [])
         if secondary_identifier:
             _always_2 = add_claims_always.get(secondary_identifier, [])
-            _always_add.extend(_always_2)
+            # not extend(), that would change the client's configuration
+            _always_add = _always_add + _always_2
 
         return _claims_by_scope, _always_add
 
-- 
2.43.0


From 3289c9395d9016d0d37d5ef8e60138724c0a54f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:47 +0000
Subject: [PATCH 13/23] fix: escape names, values and the action in form_post
 responses

---
 src/oidcop/oauth2/authorization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 7fecc16..54a5da3 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -1,3 +1,4 @@
+import html
 import json
 import logging
 from typing import List
@@ -80,7 +81,7 @@ def inputs(form_args):
     for name, value in form_args.items():
         if name == "scope" and isinstance(value, list):
             value = " ".join(value)
-        element.append(html_field.format(name, value))
+        element.append(html_field.format(html.escape(name), html.escape(str(value))))
     return "\n".join(element)
 
 
@@ -681,7 +682,7 @@ class Authorization(Endpoint):
                 if "return_type" in _args:
                     del _args["return_type"]
 
-            msg = FORM_POST.format(inputs=inputs(_args), action=return_uri)
+            msg = FORM_POST.format(inputs=inputs(_args), action=html.escape(return_uri))
             kwargs.update(
                 {
                     "response_msg": msg,
-- 
2.43.0


From e2c5544a64cf4667e8caccf867b2f81b969319dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:02 +0000
Subject: [PATCH 14/23] fix: a bearer token in the body does not vouch for the
 request's client_id

---
 src/oidcop/client_authn.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/oidcop/client_authn.py b/src/oidcop/client_authn.py
index a34e632..336775b 100755
--- a/src/oidcop/client_authn.py
+++ b/src/oidcop/client_authn.py
@@ -172,11 +172,8 @@ class BearerBody(ClientSecretPost):
         if _token is None:
             raise AuthnFailure("No access token")
 
-        res = {"token": _token}
-        _client_id = request.get("client_id")
-        if _client_id:
-            res["client_id"] = _client_id
-        return res
+        # The token says who the client is, the request parameter proves nothing.
+        return {"token": _token}
 
 
 class JWSAuthnMethod(ClientAuthnMethod):
-- 
2.43.0


From 468aedd8001f7d6f8961aaa629c435d6789541fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:02 +0000
Subject: [PATCH 15/23] fix: refuse a request whose request object names
 another client than the authenticated one

---
 src/oidcop/endpoint.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcop/endpoint.py b/src/oidcop/endpoint.py
index 369940b..0ac3a7c 100755
--- a/src/oidcop/endpoint.py
+++ b/src/oidcop/endpoint.py
@@ -198,6 +198,12 @@ class Endpoint(object):
 
             return self.error_cls(error=_error, error_description="%s" % err)
 
+        # A request object may have replaced the request parameters
+        if auth_info.get("client_id") and req.get("client_id") != auth_info["client_id"]:
+            return self.error_cls(
+                error="invalid_request", error_description="Not the authenticated client"
+            )
+
         LOGGER.info("Parsed and verified request: %s" % sanitize(req))
 
         # Do any endpoint specific parsing
-- 
2.43.0


From cf0f7b2f90bc9c1c898a8b967aad62022a69210f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:51 +0000
Subject: [PATCH 16/23] fix: user claims do not replace what an ID token states
 about its session

---
 src/oidcop/session/grant.py  | 17 ++++++++++++++++-
 src/oidcop/token/id_token.py | 13 ++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/oidcop/session/grant.py b/src/oidcop/session/grant.py
index b0791c8..6a702b0 100644
--- a/src/oidcop/session/grant.py
+++ b/src/oidcop/session/grant.py
@@ -24,6 +24,18 @@ from oidcop.util import importer
 logger = logging.getLogger(__name__)
 
 
+# What a token handler is called with besides the payload
+HANDLER_ARGUMENTS = [
+    "session_id",
+    "token_class",
+    "ttype",
+    "usage_rules",
+    "encrypt",
+    "code",
+    "access_token",
+]
+
+
 class GrantMessage(ImpExp):
     parameter = {
         "authorization_details": {},  # As defined in draft-lodderstedt-oauth-rar
@@ -238,7 +250,10 @@ class Grant(Item):
         )
         user_id, _, _ = endpoint_context.session_manager.decrypt_session_id(session_id)
         user_info = endpoint_context.claims_interface.get_user_claims(user_id, _claims_restriction)
-        payload.update(user_info)
+        # A user claim replaces neither what is set above nor an argument of the token handler
+        payload.update(
+            {k: v for k, v in user_info.items() if k not in payload and k not in HANDLER_ARGUMENTS}
+        )
 
         # Should I add the acr value
         if self.add_acr_value(claims_release_point):
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index e8555ef..74f7d3b 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -181,7 +181,18 @@ class IDToken(Token):
                 pass
 
             # Make sure that there are no name clashes
-            for key in ["iss", "sub", "aud", "exp", "acr", "nonce", "auth_time"]:
+            for key in [
+                "iss",
+                "sub",
+                "aud",
+                "exp",
+                "acr",
+                "nonce",
+                "auth_time",
+                "sid",
+                "c_hash",
+                "at_hash",
+            ]:
                 try:
                     del user_info[key]
                 except KeyError:
-- 
2.43.0


From 6152b5b0762fe291cc7a711b5918627aaac49eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:08 +0000
Subject: [PATCH 17/23] fix: only tokens this server signed decode, and only as
 what they are

---
 src/oidcop/token/__init__.py  |  6 ++----
 src/oidcop/token/id_token.py  |  9 +++++++++
 src/oidcop/token/jwt_token.py | 11 ++++++++---
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/token/__init__.py b/src/oidcop/token/__init__.py
index b1de26f..d7eb3bf 100755
--- a/src/oidcop/token/__init__.py
+++ b/src/oidcop/token/__init__.py
@@ -90,10 +90,8 @@ class DefaultToken(Token):
         :param payload: Token information
         :return:
         """
-        if not token_class and self.token_class:
-            token_class = self.token_class
-        else:
-            token_class = "authorization_code"
+        if not token_class:
+            token_class = self.token_class or "authorization_code"
 
         if self.lifetime >= 0:
             exp = str(utc_time_sans_frac() + self.lifetime)
diff --git a/src/oidcop/token/id_token.py b/src/oidcop/token/id_token.py
index 74f7d3b..a96942b 100755
--- a/src/oidcop/token/id_token.py
+++ b/src/oidcop/token/id_token.py
@@ -335,6 +335,15 @@ class IDToken(Token):
         except JWSException:
             raise UnknownToken()
 
+        # Others, like the clients, also have keys in the key jar. And an access token that is
+        # a JWT is not an ID token.
+        if (
+            _payload.get("iss") != _context.issuer
+            or "token_class" in _payload
+            or "ttype" in _payload
+        ):
+            raise UnknownToken()
+
         logger.debug(f"Received ID Token payload: {_payload}")
 
         if is_expired(_payload["exp"]):
diff --git a/src/oidcop/token/jwt_token.py b/src/oidcop/token/jwt_token.py
index d865349..3bf4bce 100644
--- a/src/oidcop/token/jwt_token.py
+++ b/src/oidcop/token/jwt_token.py
@@ -2,7 +2,7 @@ from typing import Callable
 from typing import Optional
 
 from cryptojwt import JWT
-from cryptojwt.jws.exception import JWSException
+from cryptojwt.jws.jws import factory
 
 from oidcop.exception import ToOld
 from oidcop.token import Crypt
@@ -89,8 +89,13 @@ class JWTToken(Token):
         _context = self.server_get("endpoint_context")
         verifier = JWT(key_jar=_context.keyjar, allowed_sign_algs=[self.alg])
         try:
-            _payload = verifier.unpack(token)
-        except JWSException:
+            # This server's tokens are signed, never just encrypted.
+            _payload = verifier.unpack(token) if factory(token) else None
+        except Exception as err:
+            raise UnknownToken(err)
+
+        # Others, like the clients, also have keys in the key jar.
+        if not isinstance(_payload, dict) or _payload.get("iss") != self.issuer:
             raise UnknownToken()
 
         return _payload
-- 
2.43.0


From acd279ede68abff7fd662ddedf4dbddd38d49c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:59 +0000
Subject: [PATCH 18/23] fix: cookies: the MAC separates time from content, and
 values may hold the separators

---
 src/oidcop/cookie_handler.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/oidcop/cookie_handler.py b/src/oidcop/cookie_handler.py
index cb8130e..cca29f9 100755
--- a/src/oidcop/cookie_handler.py
+++ b/src/oidcop/cookie_handler.py
@@ -109,7 +109,7 @@ class CookieHandler:
 
         if self.sign_key:
             signer = HMACSigner(algorithm=self.sign_alg)
-            mac = signer.sign(bytes_load + bytes_timestamp, self.sign_key.key)
+            mac = signer.sign(b"|".join([bytes_timestamp, bytes_load]), self.sign_key.key)
         else:
             mac = b""
 
@@ -138,6 +138,17 @@ class CookieHandler:
 
         return (b"|".join(cookie_payload)).decode("utf-8")
 
+    def _split_content(self, content: str) -> List[str]:
+        """
+        Splits the value of a cookie into its parts.
+        """
+        if self.enc_key:
+            return content.split("|")
+
+        # A payload that is signed but not encrypted may contain "|"
+        timestamp, _, rest = content.partition("|")
+        return [timestamp] + rest.rsplit("|", 1)
+
     def _ver_dec_content(self, parts):
         """
         Verifies the value of a cookie
@@ -154,7 +165,7 @@ class CookieHandler:
             mac = base64.b64decode(b64_mac)
             verifier = HMACSigner(algorithm=self.sign_alg)
             if verifier.verify(
-                    payload.encode("utf-8") + timestamp.encode("utf-8"),
+                    "|".join([timestamp, payload]).encode("utf-8"),
                     mac,
                     self.sign_key.key,
             ):
@@ -179,7 +190,7 @@ class CookieHandler:
             if len(p) == 3:
                 verifier = HMACSigner(algorithm=self.sign_alg)
                 if verifier.verify(
-                        payload.encode("utf-8") + timestamp.encode("utf-8"),
+                        "|".join([timestamp, payload]).encode("utf-8"),
                         base64.b64decode(p[2]),
                         self.sign_key.key,
                 ):
@@ -258,10 +269,11 @@ class CookieHandler:
         for _cookie in cookies:
             LOGGER.debug("Cookie: {}".format(_cookie))
             if "name" in _cookie and _cookie["name"] == name:
-                _content = self._ver_dec_content(_cookie["value"].split("|"))
+                _content = self._ver_dec_content(self._split_content(_cookie["value"]))
                 if _content:
-                    payload, timestamp = self._ver_dec_content(_cookie["value"].split("|"))
-                    value, typ = payload.split("::")
+                    payload, timestamp = _content
+                    # The value may contain "::", the type can't.
+                    value, _, typ = payload.rpartition("::")
                     res.append({"value": value, "type": typ, "timestamp": timestamp})
                 else:
                     LOGGER.debug(f"Could not verify {name} cookie")
-- 
2.43.0


From 4a4cd6a9a403c4bf2cca2ffd31e876ded7baa3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:48 +0000
Subject: [PATCH 19/23] fix: a refused registration leaves no client behind;
 redirect URI rules for native clients

---
 src/oidcop/oidc/registration.py | 53 ++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/src/oidcop/oidc/registration.py b/src/oidcop/oidc/registration.py
index 529664a..9bbb1a7 100755
--- a/src/oidcop/oidc/registration.py
+++ b/src/oidcop/oidc/registration.py
@@ -285,8 +285,12 @@ class Registration(Endpoint):
         for uri in registration_request["redirect_uris"]:
             _custom = False
             p = urlparse(uri)
-            if client_type == "native":
-                if p.scheme not in ["http", "https"]:  # Custom scheme
+            if "#" in uri:
+                raise InvalidRedirectURIError("redirect_uri contains fragment")
+            elif client_type == "native":
+                if not p.scheme:
+                    raise InvalidRedirectURIError("redirect_uri is not an absolute URI")
+                elif p.scheme not in ["http", "https"]:  # Custom scheme
                     _custom = True
                 elif p.scheme == "http" and p.hostname in ["localhost", "127.0.0.1"]:
                     pass
@@ -305,8 +309,6 @@ class Registration(Endpoint):
             elif p.scheme not in ["http", "https"]:
                 # Custom scheme
                 raise InvalidRedirectURIError("Custom redirect_uri not allowed for web client")
-            elif p.fragment:
-                raise InvalidRedirectURIError("redirect_uri contains fragment")
 
             if _custom:  # Can not verify a custom scheme
                 verified_redirect_uris.append((uri, {}))
@@ -433,7 +435,43 @@ class Registration(Endpoint):
 
         logger.debug("Stored client info in CDB under cid={}".format(client_id))
 
+        _previous = _context.cdb[client_id] if client_id in _context.cdb else None
         _context.cdb[client_id] = _cinfo
+        try:
+            response = self._complete_registration(request, client_id, client_secret)
+        except Exception:
+            self._undo_registration(client_id, _cinfo, _previous)
+            raise
+
+        if "error" in response:
+            self._undo_registration(client_id, _cinfo, _previous)
+            return response
+
+        # Not all databases can be sync'ed
+        if hasattr(_context.cdb, "sync") and callable(_context.cdb.sync):
+            _context.cdb.sync()
+
+        msg = "registration_response: {}"
+        logger.info(msg.format(sanitize(response.to_dict())))
+
+        return response
+
+    def _undo_registration(self, client_id, cinfo, previous):
+        """
+        A registration that is refused leaves no client behind.
+        """
+        _context = self.server_get("endpoint_context")
+        if previous is None:
+            del _context.cdb[client_id]
+        else:
+            _context.cdb[client_id] = previous
+
+        _rat = cinfo.get("registration_access_token")
+        if _rat is not None:
+            _context.registration_access_token.pop(_rat, None)
+
+    def _complete_registration(self, request, client_id, client_secret):
+        _context = self.server_get("endpoint_context")
         _cinfo = self.do_client_registration(
             request,
             client_id,
@@ -455,13 +493,6 @@ class Registration(Endpoint):
         logger.debug("ClientInfo: {}".format(_cinfo))
         _context.cdb[client_id] = _cinfo
 
-        # Not all databases can be sync'ed
-        if hasattr(_context.cdb, "sync") and callable(_context.cdb.sync):
-            _context.cdb.sync()
-
-        msg = "registration_response: {}"
-        logger.info(msg.format(sanitize(response.to_dict())))
-
         return response
 
     def process_request(self, request=None, new_id=True, set_secret=True, **kwargs):
-- 
2.43.0


From 62c83aab4175b32c3ffcbcc34d3e2d49ec657b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:36 +0000
Subject: [PATCH 20/23] fix: logging out from everything passes over clients
 that are no longer registered

---
 src/oidcop/oidc/session.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcop/oidc/session.py b/src/oidcop/oidc/session.py
index 79a7f9d..654039b 100644
--- a/src/oidcop/oidc/session.py
+++ b/src/oidcop/oidc/session.py
@@ -167,6 +167,9 @@ class Session(Endpoint):
         fc_iframes = {}
         _rel_sid = []
         for _client_id in _session_info["user_session_info"].subordinate:
+            if _client_id not in _cdb:  # No longer registered, the others still get logged out
+                continue
+
             # I prefer back-channel. Should it be configurable ?
             if "backchannel_logout_uri" in _cdb[_client_id]:
                 _cli = _mngr.get([_user_id, _client_id])
-- 
2.43.0


From 225e1780a2be9cae837938e35255a4bcc3f7d9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:12 +0000
Subject: [PATCH 21/23] fix: a login is reused only if it is not too old and
 for the user named, and forbidden interaction never leads to a login page

---
 src/oidcop/oauth2/authorization.py | 71 +++++++++++++++++++-----------
 src/oidcop/oidc/authorization.py   | 26 ++++++-----
 2 files changed, 60 insertions(+), 37 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 54a5da3..97c7bf8 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -90,6 +90,20 @@ def max_age(request):
     return request.get(verified_request, {}).get("max_age") or request.get("max_age", 0)
 
 
+def too_old(request, authn_event) -> bool:
+    """
+    Is the authentication older than the request allows ?
+    It's when the user was authenticated that counts, not when the cookie was made.
+    """
+    if "upm_answer" in request and request["upm_answer"] == "true":
+        return False
+
+    if max_age(request) == 0 and "max_age" not in request:
+        return False
+
+    return utc_time_sans_frac() > authn_event["authn_time"] + max_age(request)
+
+
 def verify_uri(
     endpoint_context: EndpointContext,
     request: Union[dict, Message],
@@ -520,16 +534,26 @@ class Authorization(Endpoint):
         logger.debug("Login required error: {}".format(_res))
         return _res
 
+    def _need_authentication(self, redirect_uri, request, authn, authn_args):
+        if "prompt" in request and "none" in request["prompt"]:
+            # Need to authenticate but not allowed
+            return self._login_required_error(redirect_uri, request)
+
+        return {"function": authn, "args": authn_args}
+
     def _unwrap_identity(self, identity):
         if isinstance(identity, dict):
+            # From a session cookie, the user identifier may look like something wrapped.
+            if "sid" in identity:
+                return identity
+
             try:
-                _id = b64d(as_bytes(identity["uid"]))
-            except BadSyntax:
+                _unwrapped = json.loads(as_unicode(b64d(as_bytes(identity["uid"]))))
+            except (BadSyntax, ValueError):
                 return identity
-        else:
-            _id = b64d(as_bytes(identity))
+            return _unwrapped if isinstance(_unwrapped, dict) else identity
 
-        return json.loads(as_unicode(_id))
+        return json.loads(as_unicode(b64d(as_bytes(identity))))
 
     def setup_auth(
         self,
@@ -603,26 +627,19 @@ class Authorization(Endpoint):
             logger.info("No active authentication")
             logger.debug("Known clients: {}".format(list(_context.cdb.keys())))
 
-            if "prompt" in request and "none" in request["prompt"]:
-                # Need to authenticate but not allowed
-                return self._login_required_error(redirect_uri, request)
-            else:
-                return {"function": authn, "args": authn_args}
+            return self._need_authentication(redirect_uri, request, authn, authn_args)
         else:
             logger.info(f"Active authentication: {identity}")
             if re_authenticate(request, authn):
                 # demand re-authentication
-                return {"function": authn, "args": authn_args}
+                return self._need_authentication(redirect_uri, request, authn, authn_args)
             else:
                 # I got back a dictionary
                 user = identity["uid"]
                 if "req_user" in kwargs:
                     if user != kwargs["req_user"]:
                         logger.debug("Wanted to be someone else!")
-                        if "prompt" in request and "none" in request["prompt"]:
-                            return self._login_required_error(redirect_uri, request)
-                        else:
-                            return {"function": authn, "args": authn_args}
+                        return self._need_authentication(redirect_uri, request, authn, authn_args)
 
                 if "sid" in identity:
                     _session_id = identity["sid"]
@@ -630,16 +647,22 @@ class Authorization(Endpoint):
                     # make sure the client is the same
                     _uid, _cid, _gid = _mngr.decrypt_session_id(_session_id)
                     if request["client_id"] != _cid:
-                        return {"function": authn, "args": authn_args}
+                        return self._need_authentication(redirect_uri, request, authn, authn_args)
 
                     grant = _mngr[_session_id]
                     if grant.is_active() is False:
-                        return {"function": authn, "args": authn_args}
-                    elif request != grant.authorization_request:
-                        authn_event = _mngr.get_authentication_event(session_id=_session_id)
-                        if authn_event.is_valid() is False:  # if not valid, do new login
-                            return {"function": authn, "args": authn_args}
+                        return self._need_authentication(redirect_uri, request, authn, authn_args)
 
+                    if "req_sub" in kwargs and grant.sub != kwargs["req_sub"]:
+                        logger.debug("Wanted to be someone else!")
+                        return self._need_authentication(redirect_uri, request, authn, authn_args)
+
+                    authn_event = _mngr.get_authentication_event(session_id=_session_id)
+                    # if not valid or too old, do new login
+                    if authn_event.is_valid() is False or too_old(request, authn_event):
+                        return self._need_authentication(redirect_uri, request, authn, authn_args)
+
+                    if request != grant.authorization_request:
                         # create new grant
                         _session_id = _mngr.create_grant(
                             authn_event=authn_event,
@@ -648,11 +671,7 @@ class Authorization(Endpoint):
                             client_id=request["client_id"],
                         )
 
-        if _session_id:
-            authn_event = _mngr.get_authentication_event(session_id=_session_id)
-            if authn_event.is_valid() is False:  # if not valid, do new login
-                return {"function": authn, "args": authn_args}
-        else:
+        if not _session_id:
             _session_id = self.create_session(request, identity["uid"], authn_class_ref, _ts, authn)
 
         return {"session_id": _session_id, "identity": identity, "user": user}
diff --git a/src/oidcop/oidc/authorization.py b/src/oidcop/oidc/authorization.py
index fb4d73e..b5f91b1 100755
--- a/src/oidcop/oidc/authorization.py
+++ b/src/oidcop/oidc/authorization.py
@@ -12,9 +12,11 @@ logger = logging.getLogger(__name__)
 
 
 def proposed_user(request):
-    cn = verified_claim_name("it_token_hint")
-    if request.get(cn):
-        return request[cn].get("sub", "")
+    # oidcmsg keeps the verified hint of an authorization request without the leading "__"
+    if request.get("id_token_hint"):
+        for cn in [verified_claim_name("id_token_hint"), "verified_id_token_hint"]:
+            if request.get(cn):
+                return request[cn].get("sub", "")
     return ""
 
 
@@ -103,12 +105,14 @@ class Authorization(authorization.Authorization):
         self.post_parse_request.append(self._post_parse_request)
 
     def do_request_user(self, request_info, **kwargs):
-        if proposed_user(request_info):
-            kwargs["req_user"] = proposed_user(request_info)
-        else:
-            _login_hint = request_info.get("login_hint")
-            if _login_hint:
-                _context = self.server_get("endpoint_context")
-                if _context.login_hint_lookup:
-                    kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
+        # An ID token names the user by subject identifier, a login hint by user identifier
+        _sub = proposed_user(request_info)
+        if _sub:
+            kwargs["req_sub"] = _sub
+
+        _login_hint = request_info.get("login_hint")
+        if _login_hint:
+            _context = self.server_get("endpoint_context")
+            if _context.login_hint_lookup:
+                kwargs["req_user"] = _context.login_hint_lookup(_login_hint)
         return kwargs
-- 
2.43.0


From e708b3d9a023b3a58aaebd59746650d136cdf1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:41 +0000
Subject: [PATCH 22/23] fix: a pushed authorization request is resolved only
 for the client that pushed it and only during its lifetime

---
 src/oidcop/oauth2/authorization.py        | 11 ++++++++---
 src/oidcop/oauth2/pushed_authorization.py |  7 ++++++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/oidcop/oauth2/authorization.py b/src/oidcop/oauth2/authorization.py
index 97c7bf8..ac2f003 100755
--- a/src/oidcop/oauth2/authorization.py
+++ b/src/oidcop/oauth2/authorization.py
@@ -375,11 +375,16 @@ class Authorization(Endpoint):
             if _endp:
                 # Is it a UUID urn
                 if _request_uri.startswith("urn:uuid:"):
-                    _req = endpoint_context.par_db.get(_request_uri)
-                    if _req:
+                    _pushed = endpoint_context.par_db.get(_request_uri)
+                    # Only for the client that pushed it and only for as long as was promised
+                    if (
+                        _pushed
+                        and _pushed["client_id"] == client_id
+                        and _pushed["expires_at"] >= utc_time_sans_frac()
+                    ):
                         # One time usage
                         del endpoint_context.par_db[_request_uri]
-                        return _req
+                        return _pushed["request"]
                     else:
                         raise ValueError("Got a request_uri I can not resolve")
 
diff --git a/src/oidcop/oauth2/pushed_authorization.py b/src/oidcop/oauth2/pushed_authorization.py
index d1f84f8..8be9ae6 100644
--- a/src/oidcop/oauth2/pushed_authorization.py
+++ b/src/oidcop/oauth2/pushed_authorization.py
@@ -1,6 +1,7 @@
 import uuid
 
 from oidcmsg import oauth2
+from oidcmsg.time_util import utc_time_sans_frac
 
 from oidcop.oauth2.authorization import Authorization
 
@@ -30,7 +31,11 @@ class PushedAuthorization(Authorization):
         # create URN
 
         _urn = "urn:uuid:{}".format(uuid.uuid4())
-        self.server_get("endpoint_context").par_db[_urn] = request
+        self.server_get("endpoint_context").par_db[_urn] = {
+            "request": request,
+            "client_id": request["client_id"],
+            "expires_at": utc_time_sans_frac() + self.ttl,
+        }
 
         return {
             "http_response": {"request_uri": _urn, "expires_in": self.ttl},
-- 
2.43.0


From 55af757f62b321ba51f0a969fc8c0338f2f62b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:56 +0000
Subject: [PATCH 23/23] fix: a DPoP proof is verified as such, and tokens are
 bound to the key it was verified with, at both token endpoints

---
 src/oidcop/oauth2/add_on/dpop.py | 23 +++++++++++++++++------
 src/oidcop/oauth2/token.py       | 12 +++++++++++-
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/oidcop/oauth2/add_on/dpop.py b/src/oidcop/oauth2/add_on/dpop.py
index 472c5ea..934bd44 100644
--- a/src/oidcop/oauth2/add_on/dpop.py
+++ b/src/oidcop/oauth2/add_on/dpop.py
@@ -2,6 +2,7 @@ from typing import Optional
 
 from cryptojwt import JWS
 from cryptojwt import as_unicode
+from cryptojwt.jwk.asym import AsymmetricKey
 from cryptojwt.jwk.jwk import key_from_jwk_dict
 from cryptojwt.jws.jws import factory
 from oidcmsg.message import SINGLE_REQUIRED_INT
@@ -69,13 +70,22 @@ class DPoPProof(Message):
             _jwt = _jws.jwt
             if "jwk" in _jwt.headers:
                 _pub_key = key_from_jwk_dict(_jwt.headers["jwk"])
+                if not isinstance(_pub_key, AsymmetricKey):
+                    raise ValueError("Not a public key")
                 _pub_key.deserialize()
                 _info = _jws.verify_compact(keys=[_pub_key], sigalg=_jwt.headers["alg"])
+                # The body can not replace what is in the header
+                for k, v in _info.items():
+                    if k not in self.header_params:
+                        self[k] = v
+
                 for k, v in _jwt.headers.items():
-                    self[k] = v
+                    if k not in self.body_params:
+                        self[k] = v
 
-                for k, v in _info.items():
-                    self[k] = v
+                self.verify()
+                # The key the signature was verified with
+                self.key = _pub_key
             else:
                 raise Exception()
 
@@ -96,6 +106,10 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     :return:
     """
 
+    # Only a verified proof can tell which key to bind the tokens to
+    if "dpop_jkt" in request:
+        del request["dpop_jkt"]
+
     _http_info = kwargs.get("http_info")
     if not _http_info:
         return request
@@ -111,9 +125,6 @@ def post_parse_request(request, client_id, endpoint_context, **kwargs):
     if _dpop["htm"] != _http_info["method"]:
         raise ValueError("htm in DPoP does not match the HTTP method")
 
-    if not _dpop.key:
-        _dpop.key = key_from_jwk_dict(_dpop["jwk"])
-
     # Need something I can add as a reference when minting tokens
     request["dpop_jkt"] = as_unicode(_dpop.key.thumbprint("SHA-256"))
     return request
diff --git a/src/oidcop/oauth2/token.py b/src/oidcop/oauth2/token.py
index b1279a9..d79abf4 100755
--- a/src/oidcop/oauth2/token.py
+++ b/src/oidcop/oauth2/token.py
@@ -129,6 +129,15 @@ class AccessTokenHelper(TokenEndpointHelper):
             grant_types_supported = _context.provider_info["grant_types_supported"]
         grant = _session_info["grant"]
 
+        token_type = "Bearer"
+
+        # Is DPOP supported
+        if "dpop_signing_alg_values_supported" in _context.provider_info:
+            _dpop_jkt = req.get("dpop_jkt")
+            if _dpop_jkt:
+                grant.extra["dpop_jkt"] = _dpop_jkt
+                token_type = "DPoP"
+
         _based_on = grant.get_token(_access_code)
         _supports_minting = _based_on.usage_rules.get("supports_minting", [])
 
@@ -146,7 +155,7 @@ class AccessTokenHelper(TokenEndpointHelper):
 
         issue_refresh = kwargs.get("issue_refresh", False)
         _response = {
-            "token_type": "Bearer",
+            "token_type": token_type,
             "scope": grant.scope,
         }
 
@@ -158,6 +167,7 @@ class AccessTokenHelper(TokenEndpointHelper):
                     session_id=_session_info["session_id"],
                     client_id=_session_info["client_id"],
                     based_on=_based_on,
+                    token_type=token_type,
                 )
             except MintingNotAllowed as err:
                 logger.warning(err)
-- 
2.43.0

