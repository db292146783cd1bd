From f1d64b46a2881028fde85add2733c307abb523e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 01/96] fix: use a real ETag for base64 encoded proxy responses

The decoded body itself was sent as the ETag header.
---
 .../src/aws/types/lambda-proxy-types.ts                   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 85fac99..4d54454 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -1,6 +1,6 @@
 import type { APIGatewayProxyEvent, APIGatewayProxyResult } from "aws-lambda";
 import etag from "etag";
-import { compressBuffer, decodeBase64ToUtf8 } from "../../utils/base64.js";
+import { compressBuffer } from "../../utils/base64.js";
 import { truncateMiddle } from "../../utils/logging.js";
 import { StopWatch } from "../../utils/stop-watch.js";
 import { logger } from "../runtime/dt-logger-default.js";
@@ -53,9 +53,9 @@ export class LambdaProxyResponseBuilder {
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
     // create strong etag by default from original body
-    this.etag = this.isBase64Encoded
-      ? decodeBase64ToUtf8(this.body)
-      : etag(this.body);
+    this.etag = etag(
+      this.isBase64Encoded ? Buffer.from(this.body, "base64") : this.body,
+    );
     return this;
   }
 
-- 
2.43.0


From 3c8392440e3418c8d63b15cfe9ae398a2a2ac161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 02/96] fix: refuse a base64 encoded body when compression is
 already requested

The response declared Content-Encoding gzip for a body that was not compressed.
---
 lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
index 4d54454..91e154b 100644
--- a/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
+++ b/lib/digitraffic-common/src/aws/types/lambda-proxy-types.ts
@@ -49,6 +49,11 @@ export class LambdaProxyResponseBuilder {
         "Body must be a base64 encoded string when isBase64Encoded is true",
       );
     }
+    if (isBase64Encoded && this.compressBody) {
+      throw new Error(
+        "Base64 encoded body can't be compressed. Use with non encoded body with compression.",
+      );
+    }
     // Either body as is or stringify object
     this.body = typeof body === "string" ? body : JSON.stringify(body);
     this.isBase64Encoded = isBase64Encoded;
-- 
2.43.0


From 1687e8c4e87e26b8579eea0ff834ab4ccafd10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 03/96] fix: allow bigint values in log messages

CustomParams permits bigints, but logging one threw a TypeError to the caller.
---
 .../src/aws/runtime/dt-logger.ts              | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 46304f6..0f9e58f 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -115,7 +115,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   /**
@@ -177,7 +177,7 @@ export class DtLogger {
         ? `${message.error.name}: ${message.error.message}`
         : typeof message.error === "string"
           ? message.error
-          : JSON.stringify(message.error)
+          : toJson(message.error)
       : undefined;
 
     const stack = message.stack
@@ -198,7 +198,7 @@ export class DtLogger {
       runtime: this.runtime,
     };
 
-    this.writeStream.write(`${JSON.stringify(logMessage)}\n`);
+    this.writeStream.write(`${toJson(logMessage)}\n`);
   }
 
   private appendMessageFieldsToMessage(message: LoggableType): string {
@@ -229,6 +229,15 @@ function removePrefix(prefix: string, loggable: LoggableType): LoggableType {
   ) as unknown as LoggableType;
 }
 
+/**
+ * JSON.stringify can't serialize bigints, which are allowed in CustomParams, so they are written as strings.
+ */
+function toJson(value: unknown): string {
+  return JSON.stringify(value, (_key, val: unknown) =>
+    typeof val === "bigint" ? val.toString() : val,
+  );
+}
+
 function valueToString(value: unknown): string {
   if (value === undefined) {
     return "undefined";
@@ -236,8 +245,10 @@ function valueToString(value: unknown): string {
     return "null";
   } else if (value instanceof Date) {
     return value.toISOString();
+  } else if (typeof value === "bigint") {
+    return value.toString();
   } else if (typeof value !== "string") {
-    return JSON.stringify(value);
+    return toJson(value);
   } else if (value.includes("=")) {
     return JSON.stringify(value);
   }
-- 
2.43.0


From 5c17b4db2910e3368dd07e7a0b8bbdaacbb79dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 04/96] fix: do not throw when logging an invalid date

---
 lib/digitraffic-common/src/aws/runtime/dt-logger.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index 0f9e58f..a63d978 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -244,7 +244,8 @@ function valueToString(value: unknown): string {
   } else if (value === null) {
     return "null";
   } else if (value instanceof Date) {
-    return value.toISOString();
+    // toISOString throws for an invalid date
+    return Number.isNaN(value.getTime()) ? "null" : value.toISOString();
   } else if (typeof value === "bigint") {
     return value.toString();
   } else if (typeof value !== "string") {
-- 
2.43.0


From 2c86046eecbf44bc1e7aef08226a1399dbc33c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 05/96] fix: throttle anonymous requests that send an empty
 digitraffic-user header

---
 lib/digitraffic-common/src/aws/infra/acl-builder.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/acl-builder.ts b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
index 6852410..2f7c965 100644
--- a/lib/digitraffic-common/src/aws/infra/acl-builder.ts
+++ b/lib/digitraffic-common/src/aws/infra/acl-builder.ts
@@ -452,10 +452,10 @@ function createThrottleStatement(
   isBasedOnIpAndUriPath: boolean,
   path?: RegExp,
 ): CfnWebACL.StatementProperty {
-  // this statement matches empty digitraffic-user -header
+  // this statement matches a non-empty digitraffic-user -header
   const matchStatement: CfnWebACL.StatementProperty = {
     sizeConstraintStatement: {
-      comparisonOperator: isHeaderRequired ? "GT" : "GE",
+      comparisonOperator: "GT",
       fieldToMatch: {
         singleHeader: {
           Name: "digitraffic-user",
@@ -466,8 +466,8 @@ function createThrottleStatement(
     } as CfnWebACL.SizeConstraintStatementProperty,
   };
 
-  // header present       -> size > 0
-  // header not present   -> NOT(size >= 0)
+  // header present                -> size > 0
+  // header not present or empty   -> NOT(size > 0)
 
   let scopeDownStatement = isHeaderRequired
     ? matchStatement
-- 
2.43.0


From f6b3f8a8798d9081f7ffded836e91ef6ad14a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:28 +0000
Subject: [PATCH 06/96] fix: check the minimum limit of the path based waf rule

---
 other/cloudfront/src/acl/waf-rules.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/other/cloudfront/src/acl/waf-rules.ts b/other/cloudfront/src/acl/waf-rules.ts
index 6194f5c..0f5b56b 100644
--- a/other/cloudfront/src/acl/waf-rules.ts
+++ b/other/cloudfront/src/acl/waf-rules.ts
@@ -80,6 +80,7 @@ export class WafRules {
       perIpWithoutHeader,
       perIpAndQueryWithHeader,
       perIpAndQueryWithoutHeader,
+      perIpAndQueryWithoutHeaderByPath,
     );
 
     return new WafRules(
-- 
2.43.0


From 604ae45bfb1cf65b29a2cf34b9436ab183bc0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:18 +0000
Subject: [PATCH 07/96] fix: whitelist only the matching resources in the stack
 checks

---
 .../src/aws/infra/stack/stack-checking-aspect.ts                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
index 01269d5..4032936 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/stack-checking-aspect.ts
@@ -54,7 +54,7 @@ export class StackCheckingAspect implements IAspect {
 
   private isWhitelisted(key: string): boolean | undefined {
     return this.whitelistedResources?.some((wl) => {
-      return key.matchAll(new RegExp(wl, "g"));
+      return new RegExp(wl).test(key);
     });
   }
 
-- 
2.43.0


From 993942854a780596646a1b9125316412d29d22f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 08/96] fix: escape API parameters so that every value stays
 valid JSON

---
 .../src/aws/infra/api/integration.ts          | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 2f07cb5..3c191c7 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -19,9 +19,17 @@ interface ApiParameter {
   name: string;
 }
 
+/**
+ * Escapes the given velocity-expression to be used inside a JSON string.  Single quotes must be unescaped afterwards,
+ * as an escaped single quote is not valid JSON.
+ */
+function escapeForJson(expression: string): string {
+  return `$util.escapeJavaScript(${expression}).replaceAll("\\\\'", "'")`;
+}
+
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
     #if( ! $paramMap.containsKey("_$paramName"))
-        #set($tmp = $paramMap.put($paramName, $params[$paramName]))
+        #set($tmp = $paramMap.put($paramName, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
 
@@ -177,7 +185,7 @@ export class DigitrafficIntegration<T extends string> {
     this.parameters.forEach((parameter: ApiParameter) => {
       if (parameter.type === "context") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($context.${parameter.name})))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$context.${parameter.name}`)}))`,
         );
       } else if (parameter.type === "multivaluequerystring") {
         // make multivaluequerystring values to array
@@ -186,15 +194,15 @@ export class DigitrafficIntegration<T extends string> {
         );
       } else if (parameter.type === "path") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().path['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().path['${parameter.name}']`)}))`,
         );
       } else if (parameter.type === "header") {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($input.params().header['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$input.params().header['${parameter.name}']`)}))`,
         );
       } else {
         parameterAssignments.push(
-          `#set($tmp = $paramMap.put('${parameter.name}', $util.escapeJavaScript($params['${parameter.name}'])))`,
+          `#set($tmp = $paramMap.put('${parameter.name}', ${escapeForJson(`$params['${parameter.name}']`)}))`,
         );
       }
     });
@@ -211,9 +219,9 @@ ${this._passBody ? VELOCITY_PASS_BODY : ""}
 {
 #foreach($paramName in $paramMap.keySet())
 #if( $paramName.substring(0, 1) != '_')
-    "$paramName":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
+    "${escapeForJson("$paramName")}":"$paramMap.get($paramName)" #if($foreach.hasNext),\n#end
 #else
-    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"$util.escapeJavaScript($val)"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
+    "$paramName.substring(1)": [#foreach($val in $paramMap.get($paramName))"${escapeForJson("$val")}"#if($foreach.hasNext),#end#end] #if($foreach.hasNext),\n#end
 #end
 #end
 }`,
-- 
2.43.0


From f56e80c41828bbcc3b877bc817cd27adcf11e909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 09/96] fix: pass the body when it is the only thing the
 integration passes

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 3c191c7..1a99018 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -154,7 +154,9 @@ export class DigitrafficIntegration<T extends string> {
       integrationResponses,
       requestParameters: undefined,
       requestTemplates:
-        this.parameters.length === 0 && !this._passAllQueryParameters
+        this.parameters.length === 0 &&
+        !this._passAllQueryParameters &&
+        !this._passBody
           ? undefined
           : this.createRequestTemplates(),
       passthroughBehavior: PassthroughBehavior.WHEN_NO_MATCH,
-- 
2.43.0


From d7c25dd30d7b7387fe1acf4d2f2ad548ee461594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 10/96] fix: do not let a query parameter replace a parameter
 of another kind

---
 lib/digitraffic-common/src/aws/infra/api/integration.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/api/integration.ts b/lib/digitraffic-common/src/aws/infra/api/integration.ts
index 1a99018..6909b70 100644
--- a/lib/digitraffic-common/src/aws/infra/api/integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/api/integration.ts
@@ -28,7 +28,7 @@ function escapeForJson(expression: string): string {
 }
 
 const VELOCITY_ALL_PARAMS = `#foreach($paramName in $params.keySet())
-    #if( ! $paramMap.containsKey("_$paramName"))
+    #if( ! ($paramName.startsWith("_") || $paramMap.containsKey($paramName) || $paramMap.containsKey("_$paramName")))
         #set($tmp = $paramMap.put($paramName, ${escapeForJson("$params[$paramName]")}))
     #end
 #end`;
-- 
2.43.0


From cbe09ffea494df4a068ce24cd98cdd66abe06d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:56 +0000
Subject: [PATCH 11/96] fix: measure distances to positions with a zero
 coordinate

---
 lib/digitraffic-common/src/utils/geometry.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index f82ec3a..b089045 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -142,10 +142,10 @@ export function distanceBetweenPositionsInKm(
   if (
     pos1.length > 3 ||
     pos2.length > 3 ||
-    !pos10 ||
-    !pos11 ||
-    !pos20 ||
-    !pos21
+    pos10 === undefined ||
+    pos11 === undefined ||
+    pos20 === undefined ||
+    pos21 === undefined
   ) {
     throw Error(
       `Illegal Positions ${pos1.toString()} and ${pos2.toString()}. Both must have length between 2 or 3.`,
-- 
2.43.0


From 88ba3fc8810b4aa1d23c8e5aca9365e7a9b20c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:57 +0000
Subject: [PATCH 12/96] fix: distance of antipodal positions is a number

---
 lib/digitraffic-common/src/utils/geometry.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index b089045..cde2300 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -121,7 +121,7 @@ function distanceBetweenWGS84PointsInKm(
       Math.cos(toRadians(toYLat)) *
       Math.sin(diffLon / 2) *
       Math.sin(diffLon / 2);
-  const c = 2 * Math.atan2(Math.sqrt(a), Math.sqrt(1 - a));
+  const c = 2 * Math.atan2(Math.sqrt(a), Math.sqrt(Math.max(0, 1 - a)));
   return EARTH_RADIUS_KM * c;
 }
 
-- 
2.43.0


From 69439c1ad8cd53e39c0e3731598704d646a81bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 13/96] fix: keep the rings of polygons apart in WKT

---
 lib/digitraffic-common/src/utils/geometry.ts | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/digitraffic-common/src/utils/geometry.ts b/lib/digitraffic-common/src/utils/geometry.ts
index cde2300..c7266e4 100644
--- a/lib/digitraffic-common/src/utils/geometry.ts
+++ b/lib/digitraffic-common/src/utils/geometry.ts
@@ -49,13 +49,11 @@ function linestring(coordinates: Position[]): string {
 }
 
 function polygon(coordinates: Position[][]): string {
-  const list = coordinates.map((c: Position[]) => linestring(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[]) => `(${linestring(c)})`).join(",");
 }
 
 function multiPolygon(coordinates: Position[][][]): string {
-  const list = coordinates.map((c: Position[][]) => polygon(c)).join(",");
-  return `(${list})`;
+  return coordinates.map((c: Position[][]) => `(${polygon(c)})`).join(",");
 }
 
 function coordinatePair(coordinate: Position): string {
-- 
2.43.0


From eb255cb4b8a8c64e5dcffed25baa73235bd68071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:33 +0000
Subject: [PATCH 14/96] fix: logging an error object with a circular reference
 threw to the caller

---
 .../src/aws/runtime/dt-logger.ts              | 26 +++++++++++++++----
 lib/digitraffic-common/src/utils/logging.ts   |  4 +--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
index a63d978..6bc2cf7 100644
--- a/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
+++ b/lib/digitraffic-common/src/aws/runtime/dt-logger.ts
@@ -230,12 +230,28 @@ function removePrefix(prefix: string, loggable: LoggableType): LoggableType {
 }
 
 /**
- * JSON.stringify can't serialize bigints, which are allowed in CustomParams, so they are written as strings.
+ * Serializes any value.  JSON.stringify can't serialize bigints, which are allowed in CustomParams, so they are written
+ * as strings, nor circular references, which logged errors may have.
  */
-function toJson(value: unknown): string {
-  return JSON.stringify(value, (_key, val: unknown) =>
-    typeof val === "bigint" ? val.toString() : val,
-  );
+export function toJson(value: unknown): string {
+  const ancestors: unknown[] = [];
+  return JSON.stringify(value, function (this: unknown, _key, val: unknown) {
+    if (typeof val === "bigint") {
+      return val.toString();
+    }
+    if (typeof val !== "object" || val === null) {
+      return val;
+    }
+    // this is the object holding the value: whatever is below it is not an ancestor
+    while (ancestors.length > 0 && ancestors[ancestors.length - 1] !== this) {
+      ancestors.pop();
+    }
+    if (ancestors.includes(val)) {
+      return "[Circular]";
+    }
+    ancestors.push(val);
+    return val;
+  });
 }
 
 function valueToString(value: unknown): string {
diff --git a/lib/digitraffic-common/src/utils/logging.ts b/lib/digitraffic-common/src/utils/logging.ts
index 1f80df7..7fe2500 100644
--- a/lib/digitraffic-common/src/utils/logging.ts
+++ b/lib/digitraffic-common/src/utils/logging.ts
@@ -1,4 +1,4 @@
-import { DtLogger } from "../aws/runtime/dt-logger.js";
+import { DtLogger, toJson } from "../aws/runtime/dt-logger.js";
 import { getEnvVariableOrElse } from "./utils.js";
 
 const functionName = getEnvVariableOrElse("AWS_LAMBDA_FUNCTION_NAME", "test");
@@ -54,7 +54,7 @@ export function logException(
       ? error.message
       : typeof error === "string"
         ? error
-        : JSON.stringify(error);
+        : toJson(error);
 
   const stack =
     error instanceof Error && includeStack ? error.stack : undefined;
-- 
2.43.0


From b7ac9b9242af81d144bbe128cb018c41738dfa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 15/96] fix: fail the DLQ lambda when a message can't be stored

The failure was only logged, so the message was deleted from the dead letter
queue without having been written to the bucket.
---
 lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
index b216e4f..c0af20b 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-queue-internal.ts
@@ -93,11 +93,13 @@ async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // fail the invocation, otherwise the message is deleted from the DLQ without being stored
+    throw error;
   }
 }
 
-- 
2.43.0


From 71e346f1cbc0afe22ac86af60f941eed31c666ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:40 +0000
Subject: [PATCH 16/96] fix: answer every error of SQS with an error

Only status 500 was; any other error of SQS, like 503 or 400, was answered
with success although the message was not sent.
---
 lib/digitraffic-common/src/aws/infra/sqs-integration.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
index db47136..19fc380 100644
--- a/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
+++ b/lib/digitraffic-common/src/aws/infra/sqs-integration.ts
@@ -80,7 +80,8 @@ export function attachQueueToApiGatewayResource(
           responseTemplates: {
             "text/html": "Error",
           },
-          selectionPattern: "500",
+          // any error of SQS, otherwise it would be answered with the default, success
+          selectionPattern: "[45]\\d{2}",
         },
       ],
     },
-- 
2.43.0


From b4ad4d92eb618f487d0d132d4a0ebca590c3edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 17/96] fix: answer a custom missing authentication token
 message as JSON

The message was not quoted, so the body was not JSON.
---
 lib/digitraffic-common/src/aws/infra/stack/rest-api.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
index f3c3cf4..aaa832f 100644
--- a/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
+++ b/lib/digitraffic-common/src/aws/infra/stack/rest-api.ts
@@ -319,7 +319,7 @@ export function setReturnCodeForMissingAuthenticationToken(
       type: ResponseType.MISSING_AUTHENTICATION_TOKEN,
       statusCode: `${returnCode}`,
       templates: {
-        [MediaType.APPLICATION_JSON]: `{"message": ${message}}`,
+        [MediaType.APPLICATION_JSON]: JSON.stringify({ message }),
       },
     },
   );
-- 
2.43.0


From bc07d7676b665615f20d3420209518de827cf157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 18/96] fix: deprecation of a parameter was documented as
 'undefined. note'

---
 lib/digitraffic-common/src/aws/infra/documentation.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/infra/documentation.ts b/lib/digitraffic-common/src/aws/infra/documentation.ts
index 12e39ad..68eb989 100644
--- a/lib/digitraffic-common/src/aws/infra/documentation.ts
+++ b/lib/digitraffic-common/src/aws/infra/documentation.ts
@@ -116,7 +116,11 @@ export class DocumentationPart {
   deprecated(note: string): this {
     // deprecated is not supported ATM: https://docs.aws.amazon.com/apigateway/latest/developerguide/api-gateway-known-issues.html
     this.documentationProperties.deprecated = true;
-    this.documentationProperties.summary += `. ${note}`;
+    // only methods have a summary
+    this.documentationProperties.summary =
+      this.documentationProperties.summary === undefined
+        ? note
+        : `${this.documentationProperties.summary}. ${note}`;
 
     return this;
   }
-- 
2.43.0


From c7de146437d9a66a80a7b7ebc475b3e6c4f83586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 19/96] fix: expectZero failed for no count

The maximum of zero was taken for a missing maximum.
---
 .../src/aws/infra/canaries/database-checker.ts      | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index dd70df0..37fafd7 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -52,13 +52,22 @@ class CountDatabaseCheck extends DatabaseCheck<Countable> {
 
   check(value: Countable): void {
     if ("count" in value) {
-      if (this.minCount && value.count < this.minCount) {
+      // zero is a limit too
+      if (
+        this.minCount !== null &&
+        this.minCount !== undefined &&
+        value.count < this.minCount
+      ) {
         this.failed = true;
         throw new Error(
           `count was ${value.count}, minimum is ${this.minCount}`,
         );
       }
-      if (this.maxCount && value.count > this.maxCount) {
+      if (
+        this.maxCount !== null &&
+        this.maxCount !== undefined &&
+        value.count > this.maxCount
+      ) {
         this.failed = true;
         throw new Error(`count was ${value.count}, max is ${this.maxCount}`);
       }
-- 
2.43.0


From 0d0c5ddc255341ca6d03da5f20990600af66ebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 20/96] fix: wait for the steps of the database canary before
 judging them

executeStep is asynchronous, so the checks could be judged before they were run.
---
 lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts   | 2 +-
 .../src/aws/infra/canaries/database-checker.ts                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
index 67046ad..d1aa098 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/Synthetics.d.ts
@@ -22,5 +22,5 @@ declare module "Synthetics" {
     s: string,
     f: () => void,
     c: Record<string, boolean>,
-  ): void;
+  ): Promise<void>;
 }
diff --git a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
index 37fafd7..2b890ff 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/database-checker.ts
@@ -155,7 +155,7 @@ export class DatabaseCountChecker {
           check.check(value);
         };
 
-        synthetics.executeStep(check.name, checkFunction, stepConfig);
+        await synthetics.executeStep(check.name, checkFunction, stepConfig);
       }
     });
 
-- 
2.43.0


From 5a5330f10a4b804855682e97976eb723611029b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 21/96] fix: read compressed responses in canaries

The compressed body was decoded as text before it was decompressed, which
always failed.
---
 .../src/aws/infra/canaries/url-checker.ts                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f5c060d..f38e737 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -181,8 +181,8 @@ async function getResponseBody(response: IncomingMessage): Promise<string> {
   return body.toString();
 }
 
-function getBodyFromResponse(response: IncomingMessage): Promise<string> {
-  return new Promise((resolve: (value: string) => void) => {
+function getBodyFromResponse(response: IncomingMessage): Promise<Buffer> {
+  return new Promise((resolve: (value: Buffer) => void) => {
     const buffers: Buffer[] = [];
 
     response.on("data", (data: Buffer) => {
@@ -190,7 +190,7 @@ function getBodyFromResponse(response: IncomingMessage): Promise<string> {
     });
 
     response.on("end", () => {
-      resolve(Buffer.concat(buffers).toString());
+      resolve(Buffer.concat(buffers));
     });
   });
 }
-- 
2.43.0


From 0637464a79637090fdc6f4e16c3937e2e44d654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:54 +0000
Subject: [PATCH 22/96] fix: canaries did not fail on a wrong status or a
 failing check

The results of the checks of expect200 were ignored, and the status was
never compared with the expected one.
---
 .../src/aws/infra/canaries/url-checker.ts       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
index f38e737..2b673ba 100644
--- a/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
+++ b/lib/digitraffic-common/src/aws/infra/canaries/url-checker.ts
@@ -84,10 +84,23 @@ export class UrlChecker {
       },
     };
 
+    const verifyStatus: JsonCheckerFunction<T> = async (json, body, res) => {
+      // Synthetics gives the response as the only argument
+      const response = (res ?? json) as IncomingMessage;
+
+      if (response.statusCode !== statusCode) {
+        throw new Error(
+          `${response.statusCode ?? undefined} ${response.statusMessage ?? undefined}`,
+        );
+      }
+
+      await callback(json, body, res);
+    };
+
     await synthetics.executeHttpStep(
       `Verify ${statusCode} for ${sanitizeStepName(url)}`,
       requestOptions,
-      callback,
+      verifyStatus,
     );
   }
 
@@ -96,7 +109,7 @@ export class UrlChecker {
     ...callbacks: JsonCheckerFunction<T>[]
   ): Promise<void> {
     const callback: JsonCheckerFunction<T> = async (json, body, res) => {
-      await Promise.allSettled(callbacks.map((c) => c(json, body, res)));
+      await Promise.all(callbacks.map((c) => c(json, body, res)));
     };
 
     return this.expectStatus(200, url, callback);
-- 
2.43.0


From 60ec9be30a8812a40bd1d0a33237fada56b480aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 23/96] fix: getFirst and getLast used the sort value as a
 comparison

The function gives the value to sort by, but it was used as a comparator of
two elements, so the element found depended on their order. The given array
was sorted too.
---
 lib/digitraffic-common/src/utils/utils.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/utils/utils.ts b/lib/digitraffic-common/src/utils/utils.ts
index 3dde940..49fc822 100644
--- a/lib/digitraffic-common/src/utils/utils.ts
+++ b/lib/digitraffic-common/src/utils/utils.ts
@@ -69,7 +69,10 @@ function getFirstOrLast<T>(
   const index = getFirst ? 0 : array.length - 1;
 
   if (sortFunction) {
-    return array.sort(sortFunction)[index] as T;
+    // the function gives the value to sort by, the given array is left as it is
+    return array.toSorted((a, b) => sortFunction(a) - sortFunction(b))[
+      index
+    ] as T;
   }
 
   return array[index] as T;
-- 
2.43.0


From d783a7fe8095c63b7367fc7f316d9f81f68d7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:33 +0000
Subject: [PATCH 24/96] fix: accept OpenAPI documents with explode, path
 servers and parameter references

---
 lib/digitraffic-common/src/types/openapi-schema.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/digitraffic-common/src/types/openapi-schema.ts b/lib/digitraffic-common/src/types/openapi-schema.ts
index 9b51058..3c19e7a 100644
--- a/lib/digitraffic-common/src/types/openapi-schema.ts
+++ b/lib/digitraffic-common/src/types/openapi-schema.ts
@@ -24,7 +24,7 @@ export const parameterObject = z.object({
       "deepObject",
     ])
     .optional(),
-  explode: z.string().optional(),
+  explode: z.boolean().optional(),
   allowReserved: z.boolean().optional(),
   schema: z.unknown().optional(),
   example: z.unknown().optional(),
@@ -70,8 +70,8 @@ export const openapiPathItem = z
     head: openapiOperation,
     patch: openapiOperation,
     trace: openapiOperation,
-    servers: serverObject,
-    parameters: z.array(parameterObject),
+    servers: z.array(serverObject),
+    parameters: z.array(parameterObject.or(referenceObject)),
   })
   .partial();
 
-- 
2.43.0


From 6a5535013a611677293212ed84a6afcba00a7999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 25/96] fix: one malformed record no longer fails the whole
 batch of port call timestamps

---
 .../src/lambda/process-queue/process-queue.ts         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/marine/portactivity/src/lambda/process-queue/process-queue.ts b/marine/portactivity/src/lambda/process-queue/process-queue.ts
index 309c4d1..8b89ae1 100644
--- a/marine/portactivity/src/lambda/process-queue/process-queue.ts
+++ b/marine/portactivity/src/lambda/process-queue/process-queue.ts
@@ -26,14 +26,15 @@ export function handlerFn(): (
           [];
 
         for (const r of event.Records) {
-          const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
           const start = Date.now();
-          logger.debug({
-            method: "ProcessQueue.handler",
-            message: `processing timestamp ${JSON.stringify(partial)}`,
-          });
 
           try {
+            const partial = JSON.parse(r.body) as Partial<ApiTimestamp>;
+            logger.debug({
+              method: "ProcessQueue.handler",
+              message: `processing timestamp ${JSON.stringify(partial)}`,
+            });
+
             const timestamp = await validateTimestamp(partial, db);
 
             if (!timestamp) {
-- 
2.43.0


From 5cd317c6291f35a5548efc53eceb3f3c8fe840a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 26/96] fix: the public ship list covers the documented four
 days by default

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 09ce833..249e033 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -13,6 +13,8 @@ import { getShiplist } from "../../service/shiplist.js";
 const rdsHolder = RdsHolder.create();
 const secretHolder = SecretHolder.create<ShiplistSecret>("shiplist");
 
+const DEFAULT_INTERVAL_HOURS = "96"; // 4 days
+
 export interface ShiplistSecret extends GenericSecret {
   readonly auth: string;
 }
@@ -81,7 +83,10 @@ export const handler = (
         event.queryStringParameters,
         secret,
       );
-      const interval = Number.parseInt(parameters.interval ?? "4*24", 10);
+      const interval = Number.parseInt(
+        parameters.interval ?? DEFAULT_INTERVAL_HOURS,
+        10,
+      );
 
       return inDatabaseReadonly(
         async (db: DTDatabase): Promise<APIGatewayProxyResult> => {
-- 
2.43.0


From 574af617c277e72a4f2eb610bb0a9ac5d9a6559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:40 +0000
Subject: [PATCH 27/96] fix: names in the public ship list can not end its
 script

---
 .../src/lambda/get-shiplist-public/get-shiplist-public.ts       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
index 249e033..298f1b1 100644
--- a/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
+++ b/marine/portactivity/src/lambda/get-shiplist-public/get-shiplist-public.ts
@@ -237,7 +237,7 @@ function getPageSource(shiplist: PublicApiTimestamp[]): string {
 
 </body>
 <script>
-    var shiplist = ${JSON.stringify(shiplist)};
+    var shiplist = ${JSON.stringify(shiplist).replaceAll("<", "\\u003c")};
 
     var currentDate = new Date();
 
-- 
2.43.0


From d1ee0520116a3933eb3ae2410b4965852bdc2e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:38 +0000
Subject: [PATCH 28/96] fix: the public ship list shows the merged time of an
 event

---
 marine/portactivity/src/service/shiplist.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marine/portactivity/src/service/shiplist.ts b/marine/portactivity/src/service/shiplist.ts
index f0d117b..b14ee91 100644
--- a/marine/portactivity/src/service/shiplist.ts
+++ b/marine/portactivity/src/service/shiplist.ts
@@ -43,6 +43,7 @@ export async function getShiplist(
     (ts) =>
       ({
         ...ts,
+        event_time: new Date(ts.eventTime),
         source: getDisplayableNameForEventSource(ts.source),
       }) as ShiplistTimestamp,
   );
-- 
2.43.0


From 6cc98e920bdedce15a84968c708b326b8d949c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 29/96] fix: characters split between two chunks of a Pilotweb
 response are kept

---
 marine/portactivity/src/api/pilotweb.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marine/portactivity/src/api/pilotweb.ts b/marine/portactivity/src/api/pilotweb.ts
index 484a8c3..e722fa1 100644
--- a/marine/portactivity/src/api/pilotweb.ts
+++ b/marine/portactivity/src/api/pilotweb.ts
@@ -18,6 +18,9 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
           },
         },
         (response) => {
+          // a character may be split between two chunks
+          response.setEncoding("utf8");
+
           //another chunk of data has been received, so append it to `str`
           response.on("data", (chunk) => {
             content += chunk;
-- 
2.43.0


From db6d7f73bf80d4bb641cdef4b4dbaa87b25ea26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 30/96] fix: a failed connection to Pilotweb fails the request
 instead of the process

---
 marine/portactivity/src/api/pilotweb.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marine/portactivity/src/api/pilotweb.ts b/marine/portactivity/src/api/pilotweb.ts
index e722fa1..c3c5efb 100644
--- a/marine/portactivity/src/api/pilotweb.ts
+++ b/marine/portactivity/src/api/pilotweb.ts
@@ -36,6 +36,7 @@ export function getMessages(host: string, authHeader: string): Promise<string> {
           });
         },
       )
+      .on("error", reject)
       .end();
   });
 }
-- 
2.43.0


From cbf97c2391f94d20d044841f05036ee696e51dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 31/96] fix: an area without schedules does not fail the update
 of the other areas

---
 marine/portactivity/src/service/schedules.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/service/schedules.ts b/marine/portactivity/src/service/schedules.ts
index 92b2866..3a9fedf 100644
--- a/marine/portactivity/src/service/schedules.ts
+++ b/marine/portactivity/src/service/schedules.ts
@@ -2,6 +2,7 @@ import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { parseISO, subMinutes } from "date-fns";
 import type {
   Destination,
+  Schedule,
   SchedulesApi,
   SchedulesResponse,
   Timestamp,
@@ -65,7 +66,9 @@ export class SchedulesService {
     resp: SchedulesResponse,
     calculated: boolean,
   ): ApiTimestamp[] {
-    return resp.schedules.schedule.flatMap((s) => {
+    // there is no element for an area without any schedules
+    const schedules = resp.schedules.schedule as Schedule[] | undefined;
+    return (schedules ?? []).flatMap((s) => {
       const timestamps: ApiTimestamp[] = [];
       const tt = s.timetable[0];
       if (!tt?.destination) {
-- 
2.43.0


From a59fc3a8e02c3d3ae08a9198f382438d7b3f1e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 32/96] fix: a failed update of pilotages is repeated instead
 of lost

---
 marine/portactivity/src/dao/pilotages.ts    |  8 +++++---
 marine/portactivity/src/service/pilotweb.ts | 13 +++++++------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/marine/portactivity/src/dao/pilotages.ts b/marine/portactivity/src/dao/pilotages.ts
index a570408..2af0947 100644
--- a/marine/portactivity/src/dao/pilotages.ts
+++ b/marine/portactivity/src/dao/pilotages.ts
@@ -117,7 +117,9 @@ export async function findPortCallId(
   return undefined;
 }
 
-export async function getTimestamps(db: DTDatabase): Promise<TimestampMap> {
+export async function getTimestamps(
+  db: DTDatabase | DTTransaction,
+): Promise<TimestampMap> {
   const timestamps = await db.manyOrNone<DbPilotageTimestamp>(
     GET_ACTIVE_PILOTAGE_TIMESTAMPS_PS,
   );
@@ -131,7 +133,7 @@ export async function getTimestamps(db: DTDatabase): Promise<TimestampMap> {
 }
 
 export function updatePilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotages: Pilotage[],
 ): Promise<void> {
   if (pilotages.length > 0) {
@@ -163,7 +165,7 @@ export function updatePilotages(
 }
 
 export function deletePilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotageIds: number[],
 ): Promise<number[]> {
   if (pilotageIds.length > 0) {
diff --git a/marine/portactivity/src/service/pilotweb.ts b/marine/portactivity/src/service/pilotweb.ts
index ecbb70d..d0313c9 100644
--- a/marine/portactivity/src/service/pilotweb.ts
+++ b/marine/portactivity/src/service/pilotweb.ts
@@ -3,7 +3,7 @@ import type {
   DTDatabase,
   DTTransaction,
 } from "@digitraffic/common/dist/database/database";
-import { inDatabase } from "@digitraffic/common/dist/database/database";
+import { inTransaction } from "@digitraffic/common/dist/database/database";
 import * as PilotwebAPI from "../api/pilotweb.js";
 import * as PilotagesDAO from "../dao/pilotages.js";
 import * as TimestampDAO from "../dao/timestamps.js";
@@ -25,7 +25,8 @@ export async function getMessagesFromPilotweb(
     customPilotagesReceivedCount: pilotages.length,
   });
 
-  return inDatabase(async (db: DTDatabase) => {
+  // one transaction: what a failure leaves undone is done by the next update
+  return inTransaction(async (db: DTTransaction) => {
     const idMap = await PilotagesDAO.getTimestamps(db);
     const pilotageIds = await removeMissingPilotages(db, idMap, pilotages);
     const updated = await updateAllPilotages(db, idMap, pilotages);
@@ -46,7 +47,7 @@ export async function getMessagesFromPilotweb(
 }
 
 async function removeTimestamps(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   pilotageIds: number[],
 ): Promise<void> {
   if (pilotageIds.length > 0) {
@@ -65,7 +66,7 @@ async function removeTimestamps(
 }
 
 async function updateAllPilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   idMap: PilotagesDAO.TimestampMap,
   pilotages: Pilotage[],
 ): Promise<Pilotage[]> {
@@ -82,7 +83,7 @@ async function updateAllPilotages(
 }
 
 async function removeMissingPilotages(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   idMap: PilotagesDAO.TimestampMap,
   pilotages: Pilotage[],
 ): Promise<number[]> {
@@ -99,7 +100,7 @@ async function removeMissingPilotages(
 }
 
 async function convertUpdatedTimestamps(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   newAndUpdated: Pilotage[],
 ): Promise<ApiTimestamp[]> {
   // Use db.tx() to handle multiple database queries properly
-- 
2.43.0


From c4488c657277d904bcdc72bb19ddad195cbf8199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 33/96] fix: a malformed message of Awake.AI does not end the
 process

---
 marine/portactivity/src/api/awake-ai-atx.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marine/portactivity/src/api/awake-ai-atx.ts b/marine/portactivity/src/api/awake-ai-atx.ts
index bfdad1b..edc40e2 100644
--- a/marine/portactivity/src/api/awake-ai-atx.ts
+++ b/marine/portactivity/src/api/awake-ai-atx.ts
@@ -160,7 +160,14 @@ export class AwakeAiATXApi {
     const atxs: AwakeAIATXTimestampMessage[] = [];
 
     webSocket.on("message", (messageRaw: string) => {
-      const message = JSON.parse(messageRaw) as unknown as AwakeAiATXMessage;
+      let message: AwakeAiATXMessage;
+      try {
+        message = JSON.parse(messageRaw) as unknown as AwakeAiATXMessage;
+      } catch (error) {
+        // thrown from here it would end the whole process
+        logException(logger, error);
+        return;
+      }
 
       switch (message.msgType) {
         case AwakeAiATXEventType.SUBSCRIPTION_STATUS: {
-- 
2.43.0


From bbb9b5368ba7d69e5f933eb028d4d7ee83df33a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:00 +0000
Subject: [PATCH 34/96] fix: a failed upload to S3 fails its caller

---
 lib/digitraffic-common/src/aws/runtime/s3.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/digitraffic-common/src/aws/runtime/s3.ts b/lib/digitraffic-common/src/aws/runtime/s3.ts
index 531a8d3..727ef50 100644
--- a/lib/digitraffic-common/src/aws/runtime/s3.ts
+++ b/lib/digitraffic-common/src/aws/runtime/s3.ts
@@ -20,10 +20,12 @@ export async function uploadToS3(
   });
   try {
     await s3.send(command);
-  } catch (_error) {
+  } catch (error) {
     logger.error({
       method: "s3.uploadToS3",
       message: `upload failed to bucket ${bucketName}`,
     });
+    // the caller must know, otherwise the body is lost
+    throw error;
   }
 }
-- 
2.43.0


From 6ddb766864ef14e63cd3c5aa659e036e28fe7264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:00 +0000
Subject: [PATCH 35/96] fix: dead letters of RAMI are stored as valid JSON or
 fail the lambda

---
 .../src/lambda/process-dlq/process-dlq.ts     | 19 +++++++++++++++----
 rail/rami/src/util/s3.ts                      |  4 +++-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/rail/rami/src/lambda/process-dlq/process-dlq.ts b/rail/rami/src/lambda/process-dlq/process-dlq.ts
index 8caafd5..9304a79 100644
--- a/rail/rami/src/lambda/process-dlq/process-dlq.ts
+++ b/rail/rami/src/lambda/process-dlq/process-dlq.ts
@@ -25,9 +25,10 @@ export const handler = async (event: DlqEvent): Promise<void> => {
 
     try {
       const dlqMessage = JSON.parse(e.body) as DlqMessage;
-      const body = `[{"errors":"${dlqMessage.errors}"}, ${JSON.stringify(
+      const body = JSON.stringify([
+        { errors: dlqMessage.errors },
         dlqMessage.message,
-      )}]`;
+      ]);
       const folder = `${dlqMessage.messageType}/${new Date()
         .toISOString()
         .substring(0, 10)}`;
@@ -39,9 +40,19 @@ export const handler = async (event: DlqEvent): Promise<void> => {
     } catch (error) {
       logException(logger, error);
 
-      return Promise.resolve();
+      // store it as it came
+      return uploadToS3(
+        bucketName,
+        e.body,
+        `UNKNOWN/message-${millis}-${idx}.json`,
+      );
     }
   });
 
-  await Promise.allSettled(uploads);
+  const results = await Promise.allSettled(uploads);
+  const failed = results.find((r) => r.status === "rejected");
+  if (failed) {
+    // fail the invocation, otherwise the messages are deleted from the queue
+    throw failed.reason;
+  }
 };
diff --git a/rail/rami/src/util/s3.ts b/rail/rami/src/util/s3.ts
index ba1af78..b1be024 100644
--- a/rail/rami/src/util/s3.ts
+++ b/rail/rami/src/util/s3.ts
@@ -17,11 +17,13 @@ export async function uploadToS3(
     });
     try {
       await doUpload(s3, bucketName, body, objectName);
-    } catch (_error2) {
+    } catch (error2) {
       logger.error({
         method: "RAMI-ProcessDLQ.uploadToS3",
         message: `upload failed, retrying upload to bucket ${bucketName}`,
       });
+      // the caller must know, otherwise the message is lost
+      throw error2;
     }
   }
 }
-- 
2.43.0


From 7628b47aca0b8b6ff8a07ce57e279bc083541bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 36/96] fix: release RAMI database connections when the query
 or the start of the transaction fails

---
 rail/rami/src/util/database.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rail/rami/src/util/database.ts b/rail/rami/src/util/database.ts
index 6ab3d08..03cd437 100644
--- a/rail/rami/src/util/database.ts
+++ b/rail/rami/src/util/database.ts
@@ -39,8 +39,8 @@ export async function inTransaction(
       customEvent: "transaction_started",
     });
 
-    await conn.beginTransaction();
     try {
+      await conn.beginTransaction();
       await fn(conn);
       await conn.commit();
 
@@ -80,9 +80,11 @@ export async function inDatabase<T>(
   fn: (conn: Connection) => Promise<T>,
 ): Promise<T> {
   const conn = await pool.getConnection();
-  const result = await fn(conn);
-  conn.release();
-  return result;
+  try {
+    return await fn(conn);
+  } finally {
+    conn.release();
+  }
 }
 
 export async function getOpts(): Promise<MysqlOpts> {
-- 
2.43.0


From 3f90529fbe4a64f2bb938aecd89561823f64bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 37/96] fix: accept RAMI messages delivered as an audio file

---
 rail/rami/src/service/process-rosm-message.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rail/rami/src/service/process-rosm-message.ts b/rail/rami/src/service/process-rosm-message.ts
index f31ebbd..ee842d1 100644
--- a/rail/rami/src/service/process-rosm-message.ts
+++ b/rail/rami/src/service/process-rosm-message.ts
@@ -144,7 +144,8 @@ function parseMonitoredJourneyScheduledMessageAudio(
 function parseScheduledMessageAudio(
   audioMessage: RamiScheduledMessageAudio,
 ): DtAudioContent {
-  const audioTexts = audioMessage.audioText as TextContent[];
+  // messages delivered as an audio file have no text
+  const audioTexts = (audioMessage.audioText ?? []) as TextContent[];
   return {
     textFi: getTextInLanguage(audioTexts, LanguageCodes.FI),
     textSv: getTextInLanguage(audioTexts, LanguageCodes.SV),
-- 
2.43.0


From 58caf3cc53b46e6cc574bee360d657f25ea3363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 38/96] fix: store RAMI messages that have no delivery points

---
 rail/rami/src/dao/message.ts | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 1f02531..4e8dd35 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -308,10 +308,11 @@ export async function insertMessage(message: DtRosmMessage): Promise<void> {
       INSERT_RAMI_MESSAGE,
       createDtRamiMessageInsertValues(message),
     );
-    await conn.query(
-      INSERT_RAMI_MESSAGE_STATIONS,
-      createDtRamiMessageStationInsertValues(message),
-    );
+    const stationValues = createDtRamiMessageStationInsertValues(message);
+    // an insert without any rows would be a syntax error
+    if (stationValues) {
+      await conn.query(INSERT_RAMI_MESSAGE_STATIONS, stationValues);
+    }
     await conn.query(
       INSERT_RAMI_MESSAGE_AUDIO,
       createDtRamiMessageAudioInsertValues(message),
@@ -351,7 +352,7 @@ function createDtRamiMessageInsertValues(
 function createDtRamiMessageStationInsertValues(
   message: DtRosmMessage,
 ): (string | number)[][][] | null {
-  return message.stations
+  return message.stations && message.stations.length > 0
     ? [
         message.stations.map((station) => [
           message.id,
-- 
2.43.0


From a47a405977c75b3fad4a59dae322bcb66cc28271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 39/96] fix: return the delivery time of RAMI audio messages

---
 rail/rami/src/dao/message.ts         | 4 ++--
 rail/rami/src/service/get-message.ts | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 4e8dd35..66ab9e8 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -76,7 +76,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
@@ -175,7 +175,7 @@ SELECT
     rm.train_number,
     DATE_FORMAT(rm.train_departure_date, '%Y-%m-%d') as train_departure_date,
     GROUP_CONCAT(rms.station_short_code) as stations,
-    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', rma.delivery_at, 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
+    JSON_OBJECT('text_fi', rma.text_fi, 'text_sv', rma.text_sv, 'text_en', rma.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rma.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rma.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rma.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rma.end_time, '%k:%i'), 'delivery_type', rma.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rma.days_of_week, '1', '0', '', 7)), '0000000'), 'event_type', rma.event_type, 'delivery_at', DATE_FORMAT(rma.delivery_at, '%Y-%m-%dT%TZ'), 'repetitions', rma.repetitions, 'repeat_every', rma.repeat_every)) as audio,
     JSON_OBJECT('text_fi', rmv.text_fi, 'text_sv', rmv.text_sv, 'text_en', rmv.text_en, 'delivery_rules', JSON_OBJECT('start_date', DATE_FORMAT(rmv.start_date_time, '%Y-%m-%dT%TZ'), 'end_date', DATE_FORMAT(rmv.end_date_time, '%Y-%m-%dT%TZ'), 'start_time', DATE_FORMAT(rmv.start_time, '%k:%i'), 'end_time', DATE_FORMAT(rmv.end_time, '%k:%i'), 'delivery_type', rmv.delivery_type, 'days', NULLIF(REVERSE(EXPORT_SET(rmv.days_of_week, '1', '0', '', 7)), '0000000'))) as video
 FROM
     rami_message rm
diff --git a/rail/rami/src/service/get-message.ts b/rail/rami/src/service/get-message.ts
index d5c5ccd..fde056e 100644
--- a/rail/rami/src/service/get-message.ts
+++ b/rail/rami/src/service/get-message.ts
@@ -124,6 +124,7 @@ function dbRamiMessageToPassengerInformationMessage(
               : undefined,
             deliveryType:
               message.audio?.delivery_rules?.delivery_type ?? undefined,
+            deliveryAt: message.audio?.delivery_rules?.delivery_at ?? undefined,
             repetitions:
               message.audio?.delivery_rules?.repetitions ?? undefined,
             repeatEvery:
-- 
2.43.0


From 25893bcf3338bb72689696775b19a3aede14dd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 40/96] fix: keep RAMI stop monitoring messages in the queue
 when processing fails

---
 rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
index cd01bbd..fab2ce7 100644
--- a/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
+++ b/rail/rami/src/lambda/process-sm-queue/process-sm-queue.ts
@@ -69,6 +69,9 @@ export function handlerFn(): (
             return Promise.resolve();
           } catch (error) {
             logException(logger, error);
+
+            // otherwise the message is removed from the queue and lost
+            return Promise.reject(error);
           }
         }),
       );
-- 
2.43.0


From 481fe1cd6e16f647ee458d12c7916f34232c1efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 41/96] fix: send RAMI messages that can not be parsed to the
 dead letter queue

---
 .../src/lambda/process-rosm-queue/process-rosm-queue.ts    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
index 79d2ab8..fd49e2f 100644
--- a/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
+++ b/rail/rami/src/lambda/process-rosm-queue/process-rosm-queue.ts
@@ -37,6 +37,13 @@ export function handlerFn(): (
 
             return Promise.reject(error);
           }
+        } else {
+          // the message can not be processed, keep it in dlq
+          await sendDlq({
+            messageType: "ROSM",
+            errors: "could not parse ROSM",
+            message: recordBody,
+          });
         }
         logger.info({
           method: "RAMI-ProcessRosmQueue.handler",
-- 
2.43.0


From bc19e57d65414c4eaa97da8141437428777bb00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:53 +0000
Subject: [PATCH 42/96] fix: store the times of RAMI messages by the second

---
 rail/rami/src/dao/message.ts | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rail/rami/src/dao/message.ts b/rail/rami/src/dao/message.ts
index 66ab9e8..a7f9079 100644
--- a/rail/rami/src/dao/message.ts
+++ b/rail/rami/src/dao/message.ts
@@ -1,12 +1,12 @@
-import {
-  dateToUTCString,
-  MYSQL_DATETIME_FORMAT,
-} from "@digitraffic/common/dist/utils/date-utils";
+import { dateToUTCString } from "@digitraffic/common/dist/utils/date-utils";
 import type { Connection } from "mysql2/promise.js";
 import type { DtRosmMessage } from "../model/dt-rami-message.js";
 import { inDatabase, inTransaction } from "../util/database.js";
 import { mapDaysToBits } from "../util/weekdays.js";
 
+// messages are searched and shown by the second
+const DATETIME_FORMAT = "yyyy-MM-dd HH:mm:ss";
+
 export interface DbRamiAudio {
   readonly text_fi: string | null;
   readonly text_sv: string | null;
@@ -337,12 +337,9 @@ function createDtRamiMessageInsertValues(
     id: message.id,
     version: message.version,
     messageType: message.messageType,
-    created: dateToUTCString(message.created, MYSQL_DATETIME_FORMAT),
-    startValidity: dateToUTCString(
-      message.startValidity,
-      MYSQL_DATETIME_FORMAT,
-    ),
-    endValidity: dateToUTCString(message.endValidity, MYSQL_DATETIME_FORMAT),
+    created: dateToUTCString(message.created, DATETIME_FORMAT),
+    startValidity: dateToUTCString(message.startValidity, DATETIME_FORMAT),
+    endValidity: dateToUTCString(message.endValidity, DATETIME_FORMAT),
     trainNumber: message.trainNumber ?? null,
     trainDepartureDate: message.trainDepartureLocalDate ?? null,
     journeyRef: message.journeyRef ?? null,
@@ -374,10 +371,10 @@ function createDtRamiMessageVideoInsertValues(
     textEn: message.video?.textEn ?? null,
     deliveryType: message.video?.deliveryType ?? null,
     startDateTime: message.video?.startDateTime
-      ? dateToUTCString(message.video.startDateTime, MYSQL_DATETIME_FORMAT)
+      ? dateToUTCString(message.video.startDateTime, DATETIME_FORMAT)
       : null,
     endDateTime: message.video?.endDateTime
-      ? dateToUTCString(message.video.endDateTime, MYSQL_DATETIME_FORMAT)
+      ? dateToUTCString(message.video.endDateTime, DATETIME_FORMAT)
       : null,
     startTime: message.video?.startTime ?? null,
     endTime: message.video?.endTime ?? null,
@@ -398,10 +395,10 @@ function createDtRamiMessageAudioInsertValues(
     textEn: message.audio?.textEn ?? null,
     deliveryType: message.audio?.deliveryType ?? null,
     startDateTime: message.audio?.startDateTime
-      ? dateToUTCString(message.audio.startDateTime, MYSQL_DATETIME_FORMAT)
+      ? dateToUTCString(message.audio.startDateTime, DATETIME_FORMAT)
       : null,
     endDateTime: message.audio?.endDateTime
-      ? dateToUTCString(message.audio.endDateTime, MYSQL_DATETIME_FORMAT)
+      ? dateToUTCString(message.audio.endDateTime, DATETIME_FORMAT)
       : null,
     startTime: message.audio?.startTime ?? null,
     endTime: message.audio?.endTime ?? null,
-- 
2.43.0


From 8e634afb75813718468d0da06fa0069fc71a05e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:19 +0000
Subject: [PATCH 43/96] fix: cloudfront functions of a stack do not depend on
 other stacks

---
 other/cloudfront/src/util/function-creator.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/other/cloudfront/src/util/function-creator.ts b/other/cloudfront/src/util/function-creator.ts
index 411cd4c..1fb5f8f 100644
--- a/other/cloudfront/src/util/function-creator.ts
+++ b/other/cloudfront/src/util/function-creator.ts
@@ -1,4 +1,5 @@
 import fs from "node:fs";
+import { Stack } from "aws-cdk-lib";
 import {
   Function as CloudfrontFunction,
   FunctionCode,
@@ -66,8 +67,8 @@ export function createHttpHeadersFunction(
   return createCloudfrontFunction(scope, "http-headers-function", body);
 }
 
-// let's make a chain of dependencies from the functions, as AWS won't allow deploying many functions at the same time!
-let lastFunction: CloudfrontFunction;
+// let's make a chain of dependencies from the functions of a stack, as AWS won't allow deploying many functions at the same time!
+const lastFunctions = new WeakMap<Stack, CloudfrontFunction>();
 
 export function createCloudfrontFunction(
   scope: Construct,
@@ -79,11 +80,14 @@ export function createCloudfrontFunction(
     runtime: FunctionRuntime.JS_2_0,
   });
 
+  const stack = Stack.of(scope);
+  const lastFunction = lastFunctions.get(stack);
+
   if (lastFunction) {
     newFunction.node.addDependency(lastFunction);
   }
 
-  lastFunction = newFunction;
+  lastFunctions.set(stack, newFunction);
 
   return newFunction;
 }
-- 
2.43.0


From e0d2fc57030b057bb9223640ba68d6af5e1912bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:01 +0000
Subject: [PATCH 44/96] fix: behaviors of one host keep their own api key,
 path, protocol and read timeout

---
 other/cloudfront/src/cloudfront-cdk-stack.ts | 31 +++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/other/cloudfront/src/cloudfront-cdk-stack.ts b/other/cloudfront/src/cloudfront-cdk-stack.ts
index 7af157d..5fb5cc8 100644
--- a/other/cloudfront/src/cloudfront-cdk-stack.ts
+++ b/other/cloudfront/src/cloudfront-cdk-stack.ts
@@ -10,6 +10,7 @@ import type {
   IOrigin,
   IOriginRequestPolicy,
   IRealtimeLogConfig,
+  IVpcOrigin,
 } from "aws-cdk-lib/aws-cloudfront";
 import {
   CachedMethods,
@@ -218,7 +219,19 @@ export class CloudfrontCdkStack extends Stack {
   }
 
   getOrigin(behavior: Behavior): IOrigin {
-    const cacheKey = behavior.origin._origin;
+    const { _type, _origin, _path } = behavior.origin;
+    // api key and read timeout are properties of the origin, so behaviors share
+    // an origin only if they agree on them. S3 origins have neither.
+    const cacheKey =
+      _type === "s3"
+        ? JSON.stringify([_type, _origin])
+        : JSON.stringify([
+            _type,
+            _origin,
+            _path,
+            behavior.apiKey,
+            behavior.readTimeout,
+          ]);
 
     if (!this._originCache[cacheKey]) {
       this._originCache[cacheKey] = this.createOrigin(behavior);
@@ -269,14 +282,18 @@ export class CloudfrontCdkStack extends Stack {
         throw new Error(`Missing vpc origin ${behavior.origin._origin}`);
       }
 
-      const cfVpcOrigin = CfVpcOrigin.fromVpcOriginId(
-        this,
-        `vpcOrigin-${behavior.origin._origin}`,
-        vpcOrigin.ref,
-      );
+      const vpcOriginId = `vpcOrigin-${behavior.origin._origin}`;
+      const existing = this.node.tryFindChild(vpcOriginId) as
+        | IVpcOrigin
+        | undefined;
+      const cfVpcOrigin =
+        existing ??
+        CfVpcOrigin.fromVpcOriginId(this, vpcOriginId, vpcOrigin.ref);
 
       return VpcOrigin.withVpcOrigin(cfVpcOrigin, {
-        originId: `vpcOrigin-${behavior.origin._origin}`,
+        originId: existing
+          ? `${vpcOriginId}-${this._originIndex}`
+          : vpcOriginId,
         domainName: "internal-web-test-1221465418.eu-west-1.elb.amazonaws.com",
         readTimeout: Duration.seconds(behavior.readTimeout),
         connectionAttempts: 3,
-- 
2.43.0


From d4b3dbdcba1f5c7eb15fb6e5ae4c7e00049a9301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:01 +0000
Subject: [PATCH 45/96] fix: removing the gzip requirement keeps an ip
 restriction

---
 other/cloudfront/src/distribution/behavior.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/other/cloudfront/src/distribution/behavior.ts b/other/cloudfront/src/distribution/behavior.ts
index b6fe0ab..ee0909c 100644
--- a/other/cloudfront/src/distribution/behavior.ts
+++ b/other/cloudfront/src/distribution/behavior.ts
@@ -259,7 +259,11 @@ export class Behavior {
   }
 
   public withoutGzipRequirementLambda(): this {
-    this.lambdaConfig.lambdas.delete(LambdaEdgeEventType.VIEWER_REQUEST);
+    for (const [eventType, lambda] of this.lambdaConfig.lambdas) {
+      if (lambda === LambdaType.GZIP_REQUIREMENT) {
+        this.lambdaConfig.lambdas.delete(eventType);
+      }
+    }
 
     return this;
   }
-- 
2.43.0


From c8ef35906a1a5b6ed266bf5f2f35350b483d6fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:01 +0000
Subject: [PATCH 46/96] fix: refuse two behaviors for the same path

---
 other/cloudfront/src/cloudfront-cdk-stack.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/other/cloudfront/src/cloudfront-cdk-stack.ts b/other/cloudfront/src/cloudfront-cdk-stack.ts
index 5fb5cc8..e56ddc2 100644
--- a/other/cloudfront/src/cloudfront-cdk-stack.ts
+++ b/other/cloudfront/src/cloudfront-cdk-stack.ts
@@ -452,6 +452,10 @@ export class CloudfrontCdkStack extends Stack {
     const behaviorRecord: Record<string, BehaviorOptions> = {};
 
     behaviors.forEach((b) => {
+      if (behaviorRecord[b.behaviorPath]) {
+        throw new Error(`Too many behaviors defined for ${b.behaviorPath}`);
+      }
+
       behaviorRecord[b.behaviorPath] = this.createBehavior(b, logConfig);
     });
 
-- 
2.43.0


From 6012e067c0826f825afd04eaa5591efb93e0136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:01 +0000
Subject: [PATCH 47/96] fix: do not reuse an edge lambda made for other
 addresses or hosts

---
 other/cloudfront/src/util/edgalambda-factory.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/other/cloudfront/src/util/edgalambda-factory.ts b/other/cloudfront/src/util/edgalambda-factory.ts
index 177261b..d523caf 100644
--- a/other/cloudfront/src/util/edgalambda-factory.ts
+++ b/other/cloudfront/src/util/edgalambda-factory.ts
@@ -68,7 +68,9 @@ export class EdgeLambdaFactory {
     weathercamHost: string,
     weathercamUrl: string,
   ): IVersion {
-    return this.getLambda("weathercam-rewrite", () =>
+    const key = `weathercam-rewrite_${weathercamHost}_${weathercamUrl}`;
+
+    return this.getLambda(key, () =>
       createWeathercamRewrite(
         this._scope,
         this._role,
@@ -99,7 +101,7 @@ export class EdgeLambdaFactory {
   }
 
   getIpRestrictionLambda(params: IpRestrictionParameters): IVersion {
-    const key = `iprestriction_${params.path}`;
+    const key = `iprestriction_${params.path}_${params.ipList}`;
 
     return this.getLambda(key, () =>
       createIpRestriction(this._scope, this._role, params.path, params.ipList),
-- 
2.43.0


From 58e65cb743eb6fd9ff01b5cc03a56d8d5d006324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:39 +0000
Subject: [PATCH 48/96] fix: a second ip restriction of a behavior does not
 replace the first

---
 other/cloudfront/src/distribution/behavior.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/other/cloudfront/src/distribution/behavior.ts b/other/cloudfront/src/distribution/behavior.ts
index ee0909c..0167a31 100644
--- a/other/cloudfront/src/distribution/behavior.ts
+++ b/other/cloudfront/src/distribution/behavior.ts
@@ -251,6 +251,10 @@ export class Behavior {
     ipList: string,
     eventType: LambdaEdgeEventType = LambdaEdgeEventType.VIEWER_REQUEST,
   ): this {
+    if (this.lambdaConfig.parameters.ipRestriction) {
+      throw new Error(`${this.behaviorPath} IpRestriction already assigned`);
+    }
+
     this.addLambda(eventType, LambdaType.IP_RESTRICTION);
 
     this.lambdaConfig.parameters.ipRestriction = { path, ipList };
-- 
2.43.0


From 5b614a91ceb508aa700af8d6514d58466c66248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 49/96] fix: paikannin events with equally many but different
 tasks belong to different trackings

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 06f2d74..3226fcb 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -181,7 +181,7 @@ function isSameTasks(
   if (ioChannels1.length !== ioChannels2.length) {
     return false;
   }
-  const ioChannel1Strings = ioChannelsToStrings(ioChannels2);
+  const ioChannel1Strings = ioChannelsToStrings(ioChannels1);
   const ioChannel2Strings = ioChannelsToStrings(ioChannels2);
   return CommonUtils.bothArraysHasSameValues(
     ioChannel1Strings,
-- 
2.43.0


From 4b9c95e16ed974ac0252994c1363183961d195c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 50/96] fix: direction at the start of a tracking is the
 heading of its first event

---
 .../src/service/paikannin-utils.ts                              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
index 3226fcb..bf52d5d 100644
--- a/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
+++ b/road/maintenance-tracking-municipality/src/service/paikannin-utils.ts
@@ -498,6 +498,6 @@ export function createDbMaintenanceTracking(
     message_original_id: "none",
     finished: true,
     // This is additional metadata, not saved to db but used to update previous tracking
-    start_direction: lastEvent.heading,
+    start_direction: firstEvent.heading,
   };
 }
-- 
2.43.0


From 514250cbefbe04c8062d49f6b38d3a72e9dedc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:13 +0000
Subject: [PATCH 51/96] fix: count only the contracts and task mappings that
 were saved

---
 .../src/service/autori-update.ts                          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/road/maintenance-tracking-municipality/src/service/autori-update.ts b/road/maintenance-tracking-municipality/src/service/autori-update.ts
index 60750ec..5d95400 100644
--- a/road/maintenance-tracking-municipality/src/service/autori-update.ts
+++ b/road/maintenance-tracking-municipality/src/service/autori-update.ts
@@ -61,8 +61,8 @@ export class AutoriUpdate {
       message: `Insert return value: ${JSON.stringify(dbIds)}`,
       customDomain: domainName,
     });
-    // Returns array [{"id":89},null,null,{"id":90}] -> nulls are conflicting ones not inserted
-    return dbIds.filter((dbId) => dbId?.id !== null).length;
+    // Returns array [{"id":89},undefined,undefined,{"id":90}] -> undefineds are conflicting ones not inserted
+    return dbIds.filter((dbId) => dbId !== undefined).length;
   }
 
   /**
@@ -86,8 +86,8 @@ export class AutoriUpdate {
       message: `Insert return value: ${JSON.stringify(dbIds)}`,
       customDomain: domainName,
     });
-    // Returns array [{"original_id":89},null,null,{"original_id":90}] -> nulls are conflicting ones not inserted
-    return dbIds.filter((dbId) => dbId?.id !== null).length;
+    // Returns array [{"original_id":89},undefined,undefined,{"original_id":90}] -> undefineds are conflicting ones not inserted
+    return dbIds.filter((dbId) => dbId !== undefined).length;
   }
 
   /**
-- 
2.43.0


From 83d0bc0f82fe27b306e43099e6a5fd7b17019a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 52/96] fix: save a contract's start or end date that was
 missing before

---
 road/maintenance-tracking-municipality/src/dao/data.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/road/maintenance-tracking-municipality/src/dao/data.ts b/road/maintenance-tracking-municipality/src/dao/data.ts
index 9225695..babb5df 100644
--- a/road/maintenance-tracking-municipality/src/dao/data.ts
+++ b/road/maintenance-tracking-municipality/src/dao/data.ts
@@ -55,6 +55,8 @@ const PS_UPSERT_MAINTENANCE_TRACKING_DOMAIN_CONTRACT =
            WHERE maintenance_tracking_domain_contract.name <> excluded.name
               OR maintenance_tracking_domain_contract.start_date <> excluded.start_date
               OR maintenance_tracking_domain_contract.end_date <> excluded.end_date
+              OR (maintenance_tracking_domain_contract.start_date IS NULL AND excluded.start_date IS NOT NULL)
+              OR (maintenance_tracking_domain_contract.end_date IS NULL AND excluded.end_date IS NOT NULL)
            RETURNING contract`,
   });
 
-- 
2.43.0


From 5d6e18217243b4905ed4391426337b59bd5f151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 53/96] fix: finish the previous tracking only together with
 saving the one that continues it

---
 .../src/service/autori-update.ts                            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/road/maintenance-tracking-municipality/src/service/autori-update.ts b/road/maintenance-tracking-municipality/src/service/autori-update.ts
index 5d95400..685c409 100644
--- a/road/maintenance-tracking-municipality/src/service/autori-update.ts
+++ b/road/maintenance-tracking-municipality/src/service/autori-update.ts
@@ -313,6 +313,7 @@ export class AutoriUpdate {
     //     logger.info(`DEBUG previous: ${JSON.stringify(previous)}\nnext: ${JSON.stringify(tracking)}`);
     // }
 
+    let finishedId: number | undefined;
     const trackingStartPosition: Position =
       Utils.getTrackingStartPoint(tracking);
     if (
@@ -324,7 +325,7 @@ export class AutoriUpdate {
         tracking.start_time,
       )
     ) {
-      await DataDb.markMaintenanceTrackingFinished(db, previous.id);
+      finishedId = previous.id;
       // If the task are the same, then set reference to previous tracking id
       if (CommonUtils.bothArraysHasSameValues(previous.tasks, tracking.tasks)) {
         tracking.previous_tracking_id = previous.id;
@@ -332,6 +333,9 @@ export class AutoriUpdate {
     }
     return db
       .tx(async (tx) => {
+        if (finishedId !== undefined) {
+          await DataDb.markMaintenanceTrackingFinished(tx, finishedId);
+        }
         await DataDb.insertMaintenanceTracking(tx, tracking);
         await DataDb.updateContractLastUpdated(
           tx,
-- 
2.43.0


From a0e2def90ff3ce4ffc7dac27922aba33238c05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:21 +0000
Subject: [PATCH 54/96] fix: fail an OpenSearch request that cannot be sent
 instead of waiting for ever

---
 other/os-key-figures/src/api/opensearch.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index 9ebf4f2..f214c70 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -55,9 +55,8 @@ export class OpenSearch {
     const client = new NodeHttpHandler();
 
     const makeRequest = async (): Promise<OpenSearchResponse> => {
-      // biome-ignore lint/suspicious/noAsyncPromiseExecutor: fix later
-      return new Promise(async (resolve, reject) => {
-        const { response } = await client.handle(signedRequest);
+      const { response } = await client.handle(signedRequest);
+      return new Promise((resolve, reject) => {
         this.handleResponseFromOs(
           response,
           (result) => {
-- 
2.43.0


From f722ccee725e4c1920b64b5dccd4d74fcb2d43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:21 +0000
Subject: [PATCH 55/96] fix: fail an OpenSearch response that breaks off or is
 not JSON, and keep characters split between chunks

---
 other/os-key-figures/src/api/opensearch.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/other/os-key-figures/src/api/opensearch.ts b/other/os-key-figures/src/api/opensearch.ts
index f214c70..a0ef221 100644
--- a/other/os-key-figures/src/api/opensearch.ts
+++ b/other/os-key-figures/src/api/opensearch.ts
@@ -97,11 +97,15 @@ export class OpenSearch {
       );
       return;
     }
-    let responseBody = "";
-    response.body.on("data", (chunk: string) => {
-      responseBody += chunk;
+    const chunks: Buffer[] = [];
+    response.body.on("data", (chunk: Buffer | string) => {
+      chunks.push(Buffer.from(chunk as string));
+    });
+    response.body.on("error", (error: Error) => {
+      failedCallback(statusCode, `Failed to read response: ${error.message}`);
     });
     response.body.on("end", () => {
+      const responseBody = Buffer.concat(chunks).toString("utf8");
       try {
         successCallback(JSON.parse(responseBody));
       } catch (_e) {
@@ -109,6 +113,7 @@ export class OpenSearch {
           message: `Failed to parse response body: ${responseBody}`,
           method: "os-query.handleResponseFromOs",
         });
+        failedCallback(statusCode, "Failed to parse response body");
       }
     });
   }
-- 
2.43.0


From 30a05a321984523cbef25361c1d17beabcbb96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:21 +0000
Subject: [PATCH 56/96] fix: add up the counts of keys that are the same once
 sanitized

---
 .../driven/opensearch/metric-query.ts         | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
index 060a83b..15fa0b8 100644
--- a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
+++ b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
@@ -150,6 +150,15 @@ function sanitizeKey(key: string): string {
   return key.replace(/["'\\]/g, "");
 }
 
+/** Different keys can be the same once sanitized, their values belong together. */
+function sumByKey(entries: [string, number][]): Record<string, number> {
+  const result = new Map<string, number>();
+  for (const [key, value] of entries) {
+    result.set(key, (result.get(key) ?? 0) + value);
+  }
+  return Object.fromEntries(result);
+}
+
 export class CountMetricQuery extends AccessLogQuery {
   private readonly additionalQueryCondition?: string;
 
@@ -271,11 +280,9 @@ export class TermsMetricQuery extends AccessLogQuery {
       throw new Error("Expected SEARCH response with aggregations");
     }
     const buckets = response.aggregations.agg.buckets ?? [];
-    const result: Record<string, number> = {};
-    for (const bucket of buckets) {
-      result[sanitizeKey(bucket.key)] = bucket.doc_count;
-    }
-    return result;
+    return sumByKey(
+      buckets.map((bucket) => [sanitizeKey(bucket.key), bucket.doc_count]),
+    );
   }
 }
 
@@ -316,10 +323,8 @@ export class TermsWithSubAggMetricQuery extends AccessLogQuery {
       throw new Error("Expected SEARCH response with aggregations");
     }
     const buckets = response.aggregations.agg.buckets ?? [];
-    const result: Record<string, number> = {};
-    for (const bucket of buckets) {
-      result[sanitizeKey(bucket.key)] = bucket.agg?.value ?? 0;
-    }
-    return result;
+    return sumByKey(
+      buckets.map((bucket) => [sanitizeKey(bucket.key), bucket.agg?.value ?? 0]),
+    );
   }
 }
-- 
2.43.0


From 9fc7e075035293cdb71f19105091c225075ec0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:21 +0000
Subject: [PATCH 57/96] fix: decide for each key figure whether it is already
 saved, not only for the first

---
 .../driven/mysql/mysql-metric-store.ts        | 40 +++++++++----------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts b/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
index dc59730..fd1c456 100644
--- a/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
+++ b/other/os-key-figures/src/adapters/driven/mysql/mysql-metric-store.ts
@@ -34,30 +34,26 @@ export class MySqlMetricStore implements ForPersistingMetrics {
   }
 
   async persist(metrics: CollectedMetric[]): Promise<void> {
-    if (metrics.length === 0 || !metrics[0]) {
-      return;
-    }
-
-    const firstMetric = metrics[0];
-    const startDate = firstMetric.period.from;
-    const existingRows = await this.existsForPeriod(
-      firstMetric.scope.storageTag,
-      firstMetric.definition.name,
-      startDate,
-    );
-
-    const tableName = existingRows
-      ? DUPLICATES_TABLE_NAME
-      : KEY_FIGURES_TABLE_NAME;
-
-    if (existingRows) {
-      // Drop and recreate duplicates table for duplicate data
-      await this.execute("DROP TABLE IF EXISTS ??", [DUPLICATES_TABLE_NAME]);
-      await this.createTable(DUPLICATES_TABLE_NAME);
-    }
+    let duplicatesCreated = false;
 
     for (const metric of metrics) {
-      await this.insertMetric(metric, tableName);
+      const exists = await this.existsForPeriod(
+        metric.scope.storageTag,
+        metric.definition.name,
+        metric.period.from,
+      );
+
+      if (exists && !duplicatesCreated) {
+        // Drop and recreate duplicates table for duplicate data
+        await this.execute("DROP TABLE IF EXISTS ??", [DUPLICATES_TABLE_NAME]);
+        await this.createTable(DUPLICATES_TABLE_NAME);
+        duplicatesCreated = true;
+      }
+
+      await this.insertMetric(
+        metric,
+        exists ? DUPLICATES_TABLE_NAME : KEY_FIGURES_TABLE_NAME,
+      );
     }
   }
 
-- 
2.43.0


From 035e63bcb371b3eb42729df6c2ced08755cef39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:24 +0000
Subject: [PATCH 58/96] fix: keep the time a counting site was removed when it
 is still missing on the next check

---
 road/counting-site/src/service/update-service.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 169704c..47a0e24 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -197,7 +197,9 @@ function compareSites(
   const dbSiteIdSet = new Set(sitesInDb.map((s) => s.id));
 
   const newSites = sitesInApi.filter((s) => !dbSiteIdSet.has(s.id));
-  const removedSites = sitesInDb.filter((s) => !apiSiteIdSet.has(s.id));
+  const removedSites = sitesInDb.filter(
+    (s) => !apiSiteIdSet.has(s.id) && !s.removed_timestamp,
+  );
   const updatedSites = sitesInApi.filter((s) => dbSiteIdSet.has(s.id));
 
   return [newSites, removedSites, updatedSites];
-- 
2.43.0


From 6567bcf9d7acba361c73c4a8d1ed41b69d8a5736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:24 +0000
Subject: [PATCH 59/96] fix: save a counting site's values together with its
 last timestamp, and let one site's failure leave the others alone

---
 road/counting-site/src/dao/data.ts            |  7 +-
 road/counting-site/src/dao/site.ts            |  7 +-
 .../src/service/update-service.ts             | 79 +++++++++++--------
 3 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/road/counting-site/src/dao/data.ts b/road/counting-site/src/dao/data.ts
index 37aaa61..4733bd4 100644
--- a/road/counting-site/src/dao/data.ts
+++ b/road/counting-site/src/dao/data.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { ApiData } from "../model/v2/api-model.js";
 import type { DbCsvData, DbValues } from "../model/v2/db-model.js";
 import type { TravelMode } from "../model/v2/types.js";
@@ -124,7 +127,7 @@ export async function findCsvValuesForMonth(
 }
 
 export async function addSiteData(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   data: ApiData[],
 ): Promise<number> {
diff --git a/road/counting-site/src/dao/site.ts b/road/counting-site/src/dao/site.ts
index fc73a57..62db37d 100644
--- a/road/counting-site/src/dao/site.ts
+++ b/road/counting-site/src/dao/site.ts
@@ -1,4 +1,7 @@
-import type { DTDatabase } from "@digitraffic/common/dist/database/database";
+import type {
+  DTDatabase,
+  DTTransaction,
+} from "@digitraffic/common/dist/database/database";
 import type { FeatureCollection } from "geojson";
 import { sql } from "kysely";
 import { default as pgPromise } from "pg-promise";
@@ -153,7 +156,7 @@ export async function updateSites(
 }
 
 export async function updateSiteTimestamp(
-  db: DTDatabase,
+  db: DTDatabase | DTTransaction,
   siteId: number,
   timestamp: Date,
 ): Promise<void> {
diff --git a/road/counting-site/src/service/update-service.ts b/road/counting-site/src/service/update-service.ts
index 47a0e24..f66a13f 100644
--- a/road/counting-site/src/service/update-service.ts
+++ b/road/counting-site/src/service/update-service.ts
@@ -88,7 +88,8 @@ export async function updateData(
   const sitesInDb = await getAllSitesFromDb(domain); // site_id -> counter
 
   return await inDatabase(async (db: DTDatabase) => {
-    await Promise.all(
+    // every site is finished before the connection is closed, even if one of them fails
+    const results = await Promise.allSettled(
       sitesInDb.map(async (site: DbSite) => {
         if (site.removed_timestamp) {
           logger.info({
@@ -124,46 +125,49 @@ export async function updateData(
             customUpdatedCount: data.length,
           });
 
-          const pointCount = await addSiteData(db, site.id, data);
-
-          if (pointCount === 0) {
-            logger.info({
-              method: "V2UpdateService.updateDataForDomain",
-              message: "Skipping update, no values",
-              customSite: site.id,
-            });
-            if (
-              site.last_data_timestamp &&
-              site.last_data_timestamp < subDays(new Date(), 7)
-            ) {
-              // if we are more than seven days in the past and there's no new data for the requested time interval, add 1 day to last_data_timestamp of this site in order to not get stuck
-              await updateSiteTimestamp(
-                db,
-                site.id,
-                addDays(site.last_data_timestamp, 1),
+          // the points and the timestamp must be saved together, or the points are fetched and saved again
+          await db.tx(async (tx) => {
+            const pointCount = await addSiteData(tx, site.id, data);
+
+            if (pointCount === 0) {
+              logger.info({
+                method: "V2UpdateService.updateDataForDomain",
+                message: "Skipping update, no values",
+                customSite: site.id,
+              });
+              if (
+                site.last_data_timestamp &&
+                site.last_data_timestamp < subDays(new Date(), 7)
+              ) {
+                // if we are more than seven days in the past and there's no new data for the requested time interval, add 1 day to last_data_timestamp of this site in order to not get stuck
+                await updateSiteTimestamp(
+                  tx,
+                  site.id,
+                  addDays(site.last_data_timestamp, 1),
+                );
+                logger.info({
+                  method: "V2UpdateService.updateDataForDomain",
+                  message: `Over 7 days since last data update for site - Adding 1 day to previous last_data_timestamp`,
+                  customSite: site.id,
+                  customPreviousLastDataTimestamp: site.last_data_timestamp,
+                });
+              }
+            } else {
+              const actualEndStamp = max(
+                data.flatMap((d) => d.data).map((p) => p.timestamp),
               );
+
               logger.info({
                 method: "V2UpdateService.updateDataForDomain",
-                message: `Over 7 days since last data update for site - Adding 1 day to previous last_data_timestamp`,
                 customSite: site.id,
-                customPreviousLastDataTimestamp: site.last_data_timestamp,
+                customObjectType: "point",
+                customUpdatedCount: pointCount,
+                customEndTime: actualEndStamp,
               });
+
+              await updateSiteTimestamp(tx, site.id, actualEndStamp);
             }
-          } else {
-            const actualEndStamp = max(
-              data.flatMap((d) => d.data).map((p) => p.timestamp),
-            );
-
-            logger.info({
-              method: "V2UpdateService.updateDataForDomain",
-              customSite: site.id,
-              customObjectType: "point",
-              customUpdatedCount: pointCount,
-              customEndTime: actualEndStamp,
-            });
-
-            await updateSiteTimestamp(db, site.id, actualEndStamp);
-          }
+          });
         } else {
           logger.info({
             method: "V2UpdateService.updateDataForDomain",
@@ -177,6 +181,11 @@ export async function updateData(
       }),
     );
 
+    const failed = results.find((r) => r.status === "rejected");
+    if (failed) {
+      throw failed.reason;
+    }
+
     await updateLastUpdated(db, DataType.COUNTING_SITES_DATA, new Date());
   });
 }
-- 
2.43.0


From fc2b0fe8153d8c8ebcd6a40aa06d034dd6546691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:24 +0000
Subject: [PATCH 60/96] fix: give each NodePing check its own request headers

---
 other/status/src/api/nodeping-api.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/other/status/src/api/nodeping-api.ts b/other/status/src/api/nodeping-api.ts
index fc62ce3..c25ff1a 100644
--- a/other/status/src/api/nodeping-api.ts
+++ b/other/status/src/api/nodeping-api.ts
@@ -370,7 +370,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       enabled: true,
       follow: true,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       method: checkMethod,
       notifications: this.createNotificationsPostData(contactIds),
     };
@@ -434,7 +434,7 @@ export class NodePingApi {
       threshold: this.checkTimeoutSeconds,
       method: checkMethod,
       interval: this.checkIntervalMinutes,
-      sendheaders: NODEPING_SENT_HEADERS,
+      sendheaders: { ...NODEPING_SENT_HEADERS },
       notifications: this.createNotificationsPostData(contactIds),
     } as const satisfies NodePingCheckPutData;
 
-- 
2.43.0


From 86417e82171bc2b294e4346aa860e57c6de805bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:32 +0000
Subject: [PATCH 61/96] fix: recognise an extra endpoint's check by its label
 when its url has changed

---
 other/status/src/service/status-service.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index dbd5778..7c26dbe 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -260,7 +260,8 @@ export async function updateChecks(
     const correspondingExtraEndpoint = extraEndpoints.find(
       (e) =>
         e.url === check.parameters.target ||
-        e.name.toLowerCase() === check.label.toLowerCase(),
+        e.name.toLowerCase() === check.label.toLowerCase() ||
+        `${app} ${e.name}`.toLowerCase() === check.label.toLowerCase(),
     );
 
     const checksContactIds = getContactIds(
-- 
2.43.0


From c66d0bd5a14d806f035d4dad92ea96a5c149e071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:32 +0000
Subject: [PATCH 62/96] fix: compare a NodePing check with the status page's
 component of the same app, also when its name ends with a slash

---
 other/status/src/service/status-service.ts | 47 +++++++++++++---------
 other/status/src/service/utils.ts          | 12 ++++++
 2 files changed, 39 insertions(+), 20 deletions(-)

diff --git a/other/status/src/service/status-service.ts b/other/status/src/service/status-service.ts
index 7c26dbe..c41aafc 100644
--- a/other/status/src/service/status-service.ts
+++ b/other/status/src/service/status-service.ts
@@ -1,10 +1,7 @@
 import type { LoggerMethodType } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import type { SecretHolder } from "@digitraffic/common/dist/aws/runtime/secrets/secret-holder";
-import type {
-  CStateStatuspageApi,
-  CStateSystem,
-} from "../api/cstate-statuspage-api.js";
+import type { CStateStatuspageApi } from "../api/cstate-statuspage-api.js";
 import type { DigitrafficApi } from "../api/digitraffic-api.js";
 import type {
   NodePingApi,
@@ -14,7 +11,7 @@ import type {
 import type { MonitoredApp, MonitoredEndpoint } from "../app-props.js";
 import type { AppWithEndpoints } from "../model/app-with-endpoints.js";
 import type { UpdateStatusSecret } from "../secret.js";
-import { removeAppAndTrim, removeTrailingSlash } from "./utils.js";
+import { findApp, removeAppAndTrim, removeTrailingSlash } from "./utils.js";
 
 const SERVICE = "StatusService" as const;
 const BETA = "beta" as const;
@@ -27,34 +24,30 @@ export async function getNodePingAndStatuspageComponentNotInSyncStatuses(
   const cStateStatus = await cStateStatuspageApi.getStatus();
   const cStateMaintenanceOn = await cStateStatuspageApi.isActiveMaintenances();
 
-  const nodePingCheckMap: Record<string, NodePingCheck> = {};
-  for (const npc of nodePingChecks) {
-    nodePingCheckMap[convertToCstateNameWithoutApp(npc.label).toLowerCase()] =
-      npc;
-  }
-
-  const cStateSystemsMap: Record<string, CStateSystem> = {};
-  for (const system of cStateStatus.systems) {
-    cStateSystemsMap[convertToCstateNameWithoutApp(system.name)] = system;
-  }
-
   const missingCStateSystems = nodePingChecks
     .filter((npc) => !isBeta(npc.label))
     .filter(
-      (npc) => !(convertToCstateNameWithoutApp(npc.label) in cStateSystemsMap),
+      (npc) =>
+        !cStateStatus.systems.some((sc) =>
+          isSameComponent(npc.label, sc.name),
+        ),
     )
     .map((npc) => `${npc.label}: cState Statuspage system missing`);
 
   const missingNodePingChecksVsCState = cStateStatus.systems
-    .filter((sc) => !(removeAppAndTrim(sc.name) in nodePingCheckMap))
+    .filter(
+      (sc) =>
+        !nodePingChecks.some((npc) => isSameComponent(npc.label, sc.name)),
+    )
     .map((sc) => `${sc.name}: NodePing check missing`);
 
   const outOfSyncWithCStateStatusPage = cStateMaintenanceOn
     ? []
     : cStateStatus.systems
         .map((cStateSystem) => {
-          const nodePingCheck =
-            nodePingCheckMap[convertToCstateNameWithoutApp(cStateSystem.name)];
+          const nodePingCheck = nodePingChecks.find((npc) =>
+            isSameComponent(npc.label, cStateSystem.name),
+          );
           if (!nodePingCheck) {
             return null;
           }
@@ -92,6 +85,20 @@ function convertToCstateNameWithoutApp(checkLabel: string): string {
   return filledLabel.startsWith("/") ? filledLabel : `/${filledLabel}`;
 }
 
+/**
+ * Same name can be used by many apps i.e. Road Swagger UI and Rail Swagger UI,
+ * so also the app must be the same when it can be found from both of the names.
+ */
+function isSameComponent(checkLabel: string, systemName: string): boolean {
+  const checkApp = findApp(checkLabel);
+  const systemApp = findApp(systemName);
+  return (
+    (!checkApp || !systemApp || checkApp === systemApp) &&
+    convertToCstateNameWithoutApp(checkLabel) ===
+      convertToCstateNameWithoutApp(systemName)
+  );
+}
+
 function fillSpacesAndTrim(label: string): string {
   const trimmed = label.trim();
   if (trimmed.includes("-") && trimmed.includes(" ")) {
diff --git a/other/status/src/service/utils.ts b/other/status/src/service/utils.ts
index 6d39233..96c8c92 100644
--- a/other/status/src/service/utils.ts
+++ b/other/status/src/service/utils.ts
@@ -23,6 +23,18 @@ export function removeAppAndTrim(text: string): string {
   return text.trim();
 }
 
+/**
+ * Finds the app whose name the given string starts with
+ * @param text to find app name from
+ */
+export function findApp(text: string): TrafficType | undefined {
+  const lowerCaseText = text.toLowerCase();
+  return Object.values(TrafficType).find((appName) => {
+    const app = appName.toLowerCase();
+    return lowerCaseText.startsWith(app) || lowerCaseText.startsWith(`/${app}`);
+  });
+}
+
 export function removeTrailingSlash(text: string): string {
   return text.endsWith("/") ? text.slice(0, -1) : text;
 }
-- 
2.43.0


From f4b2461c637e7e1736111d6c21bc4af71b54e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 63/96] fix: serve stored Datex2 unaltered when it contains
 replacement patterns like $$ or $&

---
 road/variable-signs/src/service/variable-signs.ts | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/road/variable-signs/src/service/variable-signs.ts b/road/variable-signs/src/service/variable-signs.ts
index 4b6c586..f0c0610 100644
--- a/road/variable-signs/src/service/variable-signs.ts
+++ b/road/variable-signs/src/service/variable-signs.ts
@@ -188,7 +188,7 @@ function createVmsTablePublication35(
   return DATEX2_VMS_TABLE_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication35(
@@ -202,7 +202,7 @@ function createVmsPublication35(
   return DATEX2_VMS_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication35(
@@ -216,7 +216,7 @@ function createSituationPublication35(
   return DATEX2_SITUATION_PUBLICATION_35_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 function createD2LogicalModel223(
@@ -228,7 +228,7 @@ function createD2LogicalModel223(
   return DATEX2_223_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
 
 // Extra namespace declarations added in Datex II 3.7
@@ -308,7 +308,7 @@ function createVmsTablePublication37(
   return DATEX2_VMS_TABLE_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("CONTROLLERS", controllers);
+  ).replace("CONTROLLERS", () => controllers);
 }
 
 function createVmsPublication37(
@@ -322,7 +322,7 @@ function createVmsPublication37(
   return DATEX2_VMS_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("STATUSES", statuses);
+  ).replace("STATUSES", () => statuses);
 }
 
 function createSituationPublication37(
@@ -336,5 +336,5 @@ function createSituationPublication37(
   return DATEX2_SITUATION_PUBLICATION_37_TEMPLATE.replace(
     "PUBLICATION_TIME",
     publicationTime.toISOString(),
-  ).replace("SITUATIONS", situations);
+  ).replace("SITUATIONS", () => situations);
 }
-- 
2.43.0


From 692c09ef643d1875392c4b448518141c044627f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:10 +0000
Subject: [PATCH 64/96] fix: refuse a Datex2 document whose situation has no
 end tag instead of looping until memory is full

---
 road/variable-signs/src/service/datex2-update-service.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/road/variable-signs/src/service/datex2-update-service.ts b/road/variable-signs/src/service/datex2-update-service.ts
index 639ec73..4e261c6 100644
--- a/road/variable-signs/src/service/datex2-update-service.ts
+++ b/road/variable-signs/src/service/datex2-update-service.ts
@@ -65,6 +65,9 @@ export function parseSituations(datex2: string): Situation[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+      if (sitEndIndex === -1) {
+        throw new Error("Situation without end tag");
+      }
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From 6497c6f7789ac3b18d77d4483b01e5a9d147fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:17 +0000
Subject: [PATCH 65/96] fix: tell the vessels of an activity or a queue apart
 by id, as MMSI or IMO can be missing from both

---
 marine/winter-navigation/src/service/vessel-service.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/marine/winter-navigation/src/service/vessel-service.ts b/marine/winter-navigation/src/service/vessel-service.ts
index 31a3b10..7cb6ec6 100644
--- a/marine/winter-navigation/src/service/vessel-service.ts
+++ b/marine/winter-navigation/src/service/vessel-service.ts
@@ -80,9 +80,9 @@ function convertVessel(v: VesselDTO, lastUpdated?: Date): Vessel {
 }
 
 function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
-  const isIcebreaker =
-    v.mmsi === a.icebreaker_mmsi || v.imo === a.icebreaker_imo;
-  const isVessel = v.mmsi === a.vessel_mmsi || v.imo === a.vessel_imo;
+  // identifiers can be missing from several vessels, so vessels are told apart by id
+  const isVessel = v.id === a.vessel_id;
+  const isIcebreaker = !isVessel;
   const baseActivity = {
     type: a.type,
     reason: a.reason ?? null,
@@ -120,8 +120,8 @@ function convertActivity(a: ActivityDTO, v: VesselDTO): Activity {
 }
 
 function convertQueue(q: QueueDTO, v: VesselDTO): PlannedAssistance {
-  const isIcebreaker =
-    v.mmsi === q.icebreaker_mmsi || v.imo === q.icebreaker_imo;
+  // identifiers can be missing from several vessels, so vessels are told apart by id
+  const isIcebreaker = v.id !== q.vessel_id;
 
   const baseAssistance = {
     queuePosition: q.order_num,
-- 
2.43.0


From c09c7e8a3402d7d3571706c13222e91173f5e969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:17 +0000
Subject: [PATCH 66/96] fix: save the changes of a port suspension's location,
 and one that returns after being removed

---
 marine/winter-navigation/src/db/port-suspensions.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/port-suspensions.ts b/marine/winter-navigation/src/db/port-suspensions.ts
index 535f8ae..a5d219a 100644
--- a/marine/winter-navigation/src/db/port-suspensions.ts
+++ b/marine/winter-navigation/src/db/port-suspensions.ts
@@ -24,7 +24,11 @@ const SQL_UPDATE_SUSPENSION_LOCATIONS = `
 insert into wn_port_suspension_location(id, suspension_id, location_id, deleted)
 values ($1, $2, $3, false)
 on conflict(id)
-do nothing`;
+do update set
+    suspension_id = $2,
+    location_id = $3,
+    deleted = false
+`;
 
 const PS_UPDATE_SUSPENSIONS = new pgPromise.PreparedStatement({
   name: "update-suspensions",
-- 
2.43.0


From 0e3ee05d40a14758e86aa249b0611aa9822a525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:17 +0000
Subject: [PATCH 67/96] fix: do not serve a removed vessel by its IMO or MMSI

---
 marine/winter-navigation/src/db/vessels.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/winter-navigation/src/db/vessels.ts b/marine/winter-navigation/src/db/vessels.ts
index d24d8c2..f889994 100644
--- a/marine/winter-navigation/src/db/vessels.ts
+++ b/marine/winter-navigation/src/db/vessels.ts
@@ -21,7 +21,7 @@ do update set
 
 const SQL_GET_VESSEL = `
 WITH target_vessel AS (
-  SELECT id FROM wn_vessel WHERE imo = $3 OR mmsi = $3
+  SELECT id FROM wn_vessel WHERE (imo = $3 OR mmsi = $3) AND deleted = false
 ),
 all_queue_relations AS (
     -- Get queues where the target vessel is the one being assisted
-- 
2.43.0


From 6ac1e427edc1f0014884c540b515e17c46b5fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:08 +0000
Subject: [PATCH 68/96] fix: tell the sender when an uploaded document was not
 saved

---
 road/data-upload/src/lambda/upload-datex2/upload-datex2.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
index 42b17ff..0f86e39 100644
--- a/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
+++ b/road/data-upload/src/lambda/upload-datex2/upload-datex2.ts
@@ -14,6 +14,7 @@ export const ERRORS = {
   MISSING_BODY: "Missing body",
   INVALID_PAYLOAD: "Invalid payload",
   EMPTY_PAYLOAD: "Empty payload",
+  INTERNAL_ERROR: "Internal error",
 } as const;
 
 export const StatusCodes = {
@@ -63,6 +64,11 @@ export const handler = async (
         method,
         error,
       });
+
+      return {
+        ...StatusCodes.INTERNAL_ERROR,
+        body: ERRORS.INTERNAL_ERROR,
+      };
     } finally {
       logger.info({
         method,
-- 
2.43.0


From 479c37ef465fd6aaccb78c6e07b34463bacb6693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:08 +0000
Subject: [PATCH 69/96] fix: handle variable sign messages in the order they
 arrived

---
 .../data-upload/src/service/variable-signs.ts | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/road/data-upload/src/service/variable-signs.ts b/road/data-upload/src/service/variable-signs.ts
index e70b8e7..71ef5e7 100644
--- a/road/data-upload/src/service/variable-signs.ts
+++ b/road/data-upload/src/service/variable-signs.ts
@@ -25,23 +25,22 @@ export async function handleVariableSignMessages(): Promise<void> {
       TYPES.VMS_DATEX2_METADATA_XML,
     ]);
 
-    await Promise.allSettled(
-      unhandled.map(async (data) => {
-        try {
-          await handleVariableSign(db, data);
-
-          await updateStatus(db, data.data_id, "PROCESSED");
-        } catch (error) {
-          logger.error({
-            method: "VariableSignsService.handleVariableSignMessages",
-            customDataId: data.data_id,
-            error,
-          });
-
-          await updateStatus(db, data.data_id, "FAILED");
-        }
-      }),
-    );
+    // one by one and in the order they arrived, a later message overrides an earlier one
+    for (const data of unhandled) {
+      try {
+        await handleVariableSign(db, data);
+
+        await updateStatus(db, data.data_id, "PROCESSED");
+      } catch (error) {
+        logger.error({
+          method: "VariableSignsService.handleVariableSignMessages",
+          customDataId: data.data_id,
+          error,
+        });
+
+        await updateStatus(db, data.data_id, "FAILED");
+      }
+    }
   });
 }
 
-- 
2.43.0


From d8c2ae2b23e4fe057269085c1f1188872c5a86e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:08 +0000
Subject: [PATCH 70/96] fix: end when a DATEX II situation has no end tag

---
 road/data-upload/src/service/vs-datex2-223-parser.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/road/data-upload/src/service/vs-datex2-223-parser.ts b/road/data-upload/src/service/vs-datex2-223-parser.ts
index ce21b37..7b4b599 100644
--- a/road/data-upload/src/service/vs-datex2-223-parser.ts
+++ b/road/data-upload/src/service/vs-datex2-223-parser.ts
@@ -24,6 +24,11 @@ export function parseSituations223(datex2: string): DatexFile[] {
         DATEX2_SITUATION_TAG_END,
         sitIndex + DATEX2_SITUATION_TAG_START.length,
       );
+
+      if (sitEndIndex === -1) {
+        throw new Error("Cannot find end of situation!");
+      }
+
       index = sitEndIndex;
 
       situations.push(
-- 
2.43.0


From ea747874feff89083c2db0fd03e1bf65a971e997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:08 +0000
Subject: [PATCH 71/96] fix: keep the start of an open-ended situation, and
 store the situation alone

---
 road/data-upload/src/service/rtti-35-parser.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/road/data-upload/src/service/rtti-35-parser.ts b/road/data-upload/src/service/rtti-35-parser.ts
index 18fce38..d365641 100644
--- a/road/data-upload/src/service/rtti-35-parser.ts
+++ b/road/data-upload/src/service/rtti-35-parser.ts
@@ -1,6 +1,7 @@
 import { logger } from "@digitraffic/common/dist/aws/runtime/dt-logger-default";
 import { parseStringPromise } from "xml2js";
 import type { Datex35File, Situation } from "./vs-datex2-35-parser.js";
+import { createXml } from "./xml-util.js";
 
 export type RttiType = "PLACEHOLDER";
 
@@ -53,7 +54,7 @@ function parseSituation(
     startTime,
     endTime,
     isSrti,
-    message: datex2,
+    message: createXml(situation, "sit:situation"),
   };
 }
 
@@ -70,7 +71,7 @@ function getValidityPeriod(situation: Situation): {
       if (timeSpec) {
         const overallStartTime = timeSpec["com:overallStartTime"][0];
         const overallEndTime = timeSpec["com:overallEndTime"]?.[0];
-        if (overallStartTime && overallEndTime) {
+        if (overallStartTime) {
           return { startTime: overallStartTime, endTime: overallEndTime };
         }
       }
-- 
2.43.0


From 5baee8b8eb2c39a3cb6bdbabbd57d2d1ca52a756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:08 +0000
Subject: [PATCH 72/96] fix: publish texts with dollar signs as they are, close
 the connection and redeliver what was not published

---
 .../src/lambda/send-mqtt/send-mqtt.ts          |  3 +++
 .../src/service/mqtt-sending-service.ts        | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
index 630b5e4..813ac44 100644
--- a/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
+++ b/road/data-upload/src/lambda/send-mqtt/send-mqtt.ts
@@ -45,5 +45,8 @@ export const handler = async (event: SQSEvent): Promise<void> => {
       method,
       error,
     });
+
+    // the queue delivers the updates again
+    throw error;
   }
 };
diff --git a/road/data-upload/src/service/mqtt-sending-service.ts b/road/data-upload/src/service/mqtt-sending-service.ts
index 3178329..0af9149 100644
--- a/road/data-upload/src/service/mqtt-sending-service.ts
+++ b/road/data-upload/src/service/mqtt-sending-service.ts
@@ -61,15 +61,17 @@ export async function sendMqttUpdates(
       clientId,
     });
 
-    for (const rtti of rttiData) {
-      // first zip and then base64 encode the message
-      //            const mqttMessage = Buffer.from(gzipSync(rtti.message)).toString("base64");
-      const topic = `traffic-message-v3/traffic-data/datex2-3.5/${rtti.is_srti ? "SRTI" : "RTTI"}`;
+    try {
+      for (const rtti of rttiData) {
+        // first zip and then base64 encode the message
+        //            const mqttMessage = Buffer.from(gzipSync(rtti.message)).toString("base64");
+        const topic = `traffic-message-v3/traffic-data/datex2-3.5/${rtti.is_srti ? "SRTI" : "RTTI"}`;
 
-      await client.publishAsync(topic, createMessage(rtti.message));
+        await client.publishAsync(topic, createMessage(rtti.message));
+      }
+    } finally {
+      await client.endAsync();
     }
-
-    await client.endAsync();
   } else {
     logger.error({
       method: "MqttSendingService.sendMqttUpdate",
@@ -82,5 +84,5 @@ function createMessage(datexSituation: string): string {
   return PAYLOAD_TEMPLATE.replace(
     "PUBLICATION_TIME",
     new Date().toISOString(),
-  ).replace("SITUATION", datexSituation);
+  ).replace("SITUATION", () => datexSituation);
 }
-- 
2.43.0


From 769036fa01dcd3475f375123eb7763b747d1284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:08 +0000
Subject: [PATCH 73/96] fix: a bad RTTI record does not stop the others of its
 batch, nor is a failure forgotten

---
 .../src/lambda/handle-rtti/handle-rtti.ts     | 41 ++++++++++++++-----
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
index f80f3df..572ca38 100644
--- a/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
+++ b/road/data-upload/src/lambda/handle-rtti/handle-rtti.ts
@@ -15,25 +15,36 @@ export const handler = async (event: SQSEvent): Promise<void> => {
   await proxyHolder.setCredentials();
 
   try {
-    await Promise.all(
+    const results = await Promise.allSettled(
       event.Records.map(async (record) => {
         const { messageId, body } = record;
 
         const parsedMessage = parsePayload(body);
 
-        logger.debug(
-          `Parsed message ${messageId}: ${JSON.stringify(parsedMessage)}`,
-        );
+        if (parsedMessage) {
+          logger.debug(
+            `Parsed message ${messageId}: ${JSON.stringify(parsedMessage)}`,
+          );
 
-        await updateRtti(parsedMessage);
+          await updateRtti(parsedMessage);
+        }
       }),
     );
+
+    const failed = results.find((r) => r.status === "rejected");
+
+    // the queue delivers the messages again
+    if (failed) {
+      throw failed.reason;
+    }
   } catch (error) {
     logger.debug(`Error handling message: ${JSON.stringify(event)}`);
     logger.error({
       method,
       error,
     });
+
+    throw error;
   } finally {
     logger.info({
       method,
@@ -42,10 +53,20 @@ export const handler = async (event: SQSEvent): Promise<void> => {
   }
 };
 
-function parsePayload(body: string): UpdateObject {
-  // message comes actually from SNS, so we need to parse it
-  const message = JSON.parse(body) as SNSMessage;
-  const messageVersion = JSON.parse(message.Message);
+function parsePayload(body: string): UpdateObject | undefined {
+  try {
+    // message comes actually from SNS, so we need to parse it
+    const message = JSON.parse(body) as SNSMessage;
+    const messageVersion = JSON.parse(message.Message);
 
-  return messageSchema.parse(messageVersion);
+    return messageSchema.parse(messageVersion);
+  } catch (error) {
+    logger.debug(`Invalid message: ${body}`);
+    logger.error({
+      method,
+      error,
+    });
+
+    return undefined;
+  }
 }
-- 
2.43.0


From 223f99e445849798603b1dfee805cea05db86622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:10 +0000
Subject: [PATCH 74/96] fix: keep the tags of every API when the descriptions
 are joined

---
 other/swagger-joiner/src/swagger-utils.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/other/swagger-joiner/src/swagger-utils.ts b/other/swagger-joiner/src/swagger-utils.ts
index 428e3d5..50f60e1 100644
--- a/other/swagger-joiner/src/swagger-utils.ts
+++ b/other/swagger-joiner/src/swagger-utils.ts
@@ -5,7 +5,7 @@ import type {
   OpenApiSchema,
 } from "@digitraffic/common/dist/types/openapi-schema";
 import { openapiOperation } from "@digitraffic/common/dist/types/openapi-schema";
-import { cloneDeep, merge } from "es-toolkit";
+import { cloneDeep, merge, uniqBy } from "es-toolkit";
 
 const HttpMethods = [
   "get",
@@ -78,10 +78,16 @@ export function mergeApiDescriptions(allApis: OpenApiSchema[]): OpenApiSchema {
     return allApis[0];
   }
   // Use the first element as the base, then merge the rest into it
-  return allApis.slice(1).reduce<OpenApiSchema>(
+  const merged = allApis.slice(1).reduce<OpenApiSchema>(
     (acc, curr) => merge(acc, curr),
     cloneDeep(allApis[0] as OpenApiSchema), // clone to avoid mutating caller's object
   );
+  // merge() would merge the arrays by index, so a tag of one API would replace that of another
+  const tags = uniqBy(
+    allApis.flatMap((api) => api.tags ?? []),
+    (tag) => tag.name,
+  );
+  return tags.length > 0 ? { ...merged, tags } : merged;
 }
 
 function methodIsDeprecated(operation: OpenApiOperation): boolean {
-- 
2.43.0


From c82500b7a184dd61d7c7e6c172e618b43e1867d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:06 +0000
Subject: [PATCH 75/96] fix: answer 500 when the visits cannot be read

---
 marine/port-call/src/lambda/get-visits/get-visits.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/port-call/src/lambda/get-visits/get-visits.ts b/marine/port-call/src/lambda/get-visits/get-visits.ts
index b9361a6..a49e38f 100644
--- a/marine/port-call/src/lambda/get-visits/get-visits.ts
+++ b/marine/port-call/src/lambda/get-visits/get-visits.ts
@@ -25,7 +25,7 @@ export const handler = async (
       portOfCall: parsed.portOfCall?.toUpperCase(),
     };
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() => getAllVisits(getVisitsEvent))
       .then(([visits, lastUpdated]) => {
-- 
2.43.0


From 41301c19153074c518f7b09b9b4d9b1ea6afd95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:06 +0000
Subject: [PATCH 76/96] fix: search a vessel by what was asked, not by a
 pattern

---
 marine/port-call/src/db/visits.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/port-call/src/db/visits.ts b/marine/port-call/src/db/visits.ts
index 20fd21f..160117a 100644
--- a/marine/port-call/src/db/visits.ts
+++ b/marine/port-call/src/db/visits.ts
@@ -127,7 +127,7 @@ const FIND_ALL_VISITS_PS = new pgPromise.PreparedStatement({
       or (atd is not null and ($1::timestamptz is null or atd >= $1) and ($2::timestamptz is null or atd < $2))
     )
     and ($3::text is null or port_locode = $3)
-    and ($4::text is null or vessel_name ILIKE '%' || $4 || '%')
+    and ($4::text is null or strpos(lower(vessel_name), lower($4)) > 0)
     and ($5::text is null or vessel_id = $5::text)
     and ($6::text is null or status = $6)
     and eta >= now() - interval '3 months'
-- 
2.43.0


From 6dd4de8e65dc388e52c9ac31bfc5aa04636bdbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:06 +0000
Subject: [PATCH 77/96] fix: answer 500 when the aton faults cannot be read

---
 marine/aton-faults/src/lambda/get-faults/get-faults.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marine/aton-faults/src/lambda/get-faults/get-faults.ts b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
index d41800a..b98eaaa 100644
--- a/marine/aton-faults/src/lambda/get-faults/get-faults.ts
+++ b/marine/aton-faults/src/lambda/get-faults/get-faults.ts
@@ -41,7 +41,7 @@ export const handler = async (
   try {
     const getFaultsEvent = GetFaultsSchema.parse(event);
 
-    return proxyHolder
+    return await proxyHolder
       .setCredentials()
       .then(() =>
         findAllFaults(getFaultsEvent.language, getFaultsEvent.fixed_in_hours),
-- 
2.43.0


From 54b56a801cc4121c401a8bcde0f8d854326c2545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:06 +0000
Subject: [PATCH 78/96] fix: read the times of aton faults as Finnish time

---
 marine/aton-faults/src/db/faults.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/marine/aton-faults/src/db/faults.ts b/marine/aton-faults/src/db/faults.ts
index 1492c93..42fe30f 100644
--- a/marine/aton-faults/src/db/faults.ts
+++ b/marine/aton-faults/src/db/faults.ts
@@ -1,8 +1,8 @@
-import { TZDate } from "@date-fns/tz";
+import { tz } from "@date-fns/tz";
 import type { DTDatabase } from "@digitraffic/common/dist/database/database";
 import type { Language } from "@digitraffic/common/dist/types/language";
 import { createGeometry } from "@digitraffic/common/dist/utils/geometry";
-import { subHours } from "date-fns";
+import { parseISO, subHours } from "date-fns";
 import { default as pgPromise } from "pg-promise";
 import type { LineString } from "wkx";
 import type { DbFault, FaultFeature } from "../model/fault.js";
@@ -184,8 +184,8 @@ export function findAll<T>(
 
 function parseHelsinkiTime(date: string | null): Date | undefined {
   if (date !== null) {
-    // incoming dates are in Finnish-time without timezone-info, this probably handles it correctly
-    return new TZDate(date, "Europe/Helsinki");
+    // incoming dates are in Finnish-time without timezone-info
+    return parseISO(date, { in: tz("Europe/Helsinki") });
   }
 
   return undefined;
-- 
2.43.0


From 0d2fdc1724930a7a50e9f06ad05d6dcc6e6ae313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 79/96] fix: escape the values of camera commands

---
 marine/marinecam/src/service/command.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/service/command.ts b/marine/marinecam/src/service/command.ts
index 34da818..eb075e0 100644
--- a/marine/marinecam/src/service/command.ts
+++ b/marine/marinecam/src/service/command.ts
@@ -43,6 +43,13 @@ export type InputParameter =
   | "VideoId"
   | "Speed";
 
+function escapeAttribute(value: string): string {
+  return value
+    .replaceAll("&", "&amp;")
+    .replaceAll("<", "&lt;")
+    .replaceAll('"', "&quot;");
+}
+
 export abstract class Command<T> {
   readonly name: string;
   readonly inputParameters: Record<string, string>;
@@ -62,7 +69,7 @@ export abstract class Command<T> {
     let inputs = "";
 
     for (const [key, value] of Object.entries(this.inputParameters)) {
-      inputs += `<Param Name="${key}" Value="${value}"/>`;
+      inputs += `<Param Name="${key}" Value="${escapeAttribute(value)}"/>`;
     }
 
     return `<InputParams>${inputs}</InputParams>`;
-- 
2.43.0


From ca71870674b9296bc2531d6eb91abe524ba3b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 80/96] fix: keep what is stored of camera images in step with
 what was fetched

---
 marine/marinecam/src/service/image-fetcher.ts | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/marine/marinecam/src/service/image-fetcher.ts b/marine/marinecam/src/service/image-fetcher.ts
index 705869e..168fa9a 100644
--- a/marine/marinecam/src/service/image-fetcher.ts
+++ b/marine/marinecam/src/service/image-fetcher.ts
@@ -49,8 +49,8 @@ async function updateAllImages(
             message: `empty picture from camera ${cameraId}`,
           });
         } else {
+          await ImageStore.storeImage(cameraId, image, bucketName);
           updatedCameras.push(cameraId);
-          return ImageStore.storeImage(cameraId, image, bucketName);
         }
 
         return Promise.resolve();
@@ -58,9 +58,11 @@ async function updateAllImages(
     ),
   );
 
-  await session.disconnect();
-
-  return MetadataService.updateMetadataUpdated(updatedCameras, new Date());
+  try {
+    await session.disconnect();
+  } finally {
+    await MetadataService.updateMetadataUpdated(updatedCameras, new Date());
+  }
 }
 
 async function loginToCameraServer(
@@ -85,10 +87,10 @@ async function getImageFromCamera(
   // to get image, we need to request stream, rewind stream to current time and then request on frame from the stream
   // of course close stream after
   const videoId = await session.requestStream(cameraId);
-  await session.setStreamTime(videoId);
-  const image = await session.getFrameFromStream(videoId);
-
-  await session.closeStream(videoId);
-
-  return image;
+  try {
+    await session.setStreamTime(videoId);
+    return await session.getFrameFromStream(videoId);
+  } finally {
+    await session.closeStream(videoId);
+  }
 }
-- 
2.43.0


From 8bab3d5f80f518f4dc0aaee8e6494173804120d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 81/96] fix: refuse error pages as camera images

---
 marine/marinecam/src/service/session.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marine/marinecam/src/service/session.ts b/marine/marinecam/src/service/session.ts
index 9257f65..1e7e124 100644
--- a/marine/marinecam/src/service/session.ts
+++ b/marine/marinecam/src/service/session.ts
@@ -205,6 +205,10 @@ export class Session {
 
     const response = await this.post(streamUrl, "");
 
+    if (response.statusCode !== 200) {
+      throw Error(`getFrameFromStream failed ${response.statusCode}`);
+    }
+
     // format is uuid(16) timestamp(8) datasize(4) headersize(2) headerExtension(2)...
     const buffer = Buffer.from(await response.body.arrayBuffer());
     const dataSize = buffer.readUInt32LE(16 + 8 + 4);
-- 
2.43.0


From a03e9ed216d93a4c9b255b6dfb51222034550b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 82/96] fix: accept colons in passwords of the marine camera
 api

---
 marine/marinecam/src/lambda/authorizer/authorizer.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/marine/marinecam/src/lambda/authorizer/authorizer.ts b/marine/marinecam/src/lambda/authorizer/authorizer.ts
index 54a5e79..781d68f 100644
--- a/marine/marinecam/src/lambda/authorizer/authorizer.ts
+++ b/marine/marinecam/src/lambda/authorizer/authorizer.ts
@@ -49,14 +49,16 @@ function parseAuthentication(
     if (!encodedCreds) {
       return undefined;
     }
-    const plainCreds = Buffer.from(encodedCreds, "base64")
-      .toString()
-      .split(":");
+    const plainCreds = Buffer.from(encodedCreds, "base64").toString();
+    // the password may contain colons, the username may not
+    const separator = plainCreds.indexOf(":");
+    const username = plainCreds.substring(0, separator);
+    const password = plainCreds.substring(separator + 1);
 
-    if (plainCreds.length !== 2 || !plainCreds[0] || !plainCreds[1]) {
+    if (!username || !password) {
       return undefined;
     }
-    return [plainCreds[0], plainCreds[1]];
+    return [username, password];
   }
 }
 
-- 
2.43.0


From aeec4b4b6e92135019a1cc46a32b28667ee1eea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 83/96] fix: answer the login when a new password is required
 or cognito throws

---
 .../src/lambda/authorizer/cognito_backend.ts     | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
index a3c865b..aa6176c 100644
--- a/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
+++ b/marine/marinecam/src/lambda/authorizer/cognito_backend.ts
@@ -53,7 +53,12 @@ export function loginUser(
         },
 
         newPasswordRequired: (userAttributes: object) => {
-          return changeUserPassword(cognitoUser, password, userAttributes);
+          return changeUserPassword(
+            cognitoUser,
+            password,
+            userAttributes,
+            resolve,
+          );
         },
       });
     } catch (error) {
@@ -62,6 +67,8 @@ export function loginUser(
         message: "authenticateUser failed",
         customDetails: JSON.stringify(error),
       });
+
+      resolve(undefined);
     }
   });
 }
@@ -70,14 +77,17 @@ function changeUserPassword(
   cognitoUser: CognitoUser,
   newPassword: string,
   userAttributes: object,
+  resolve: (session: CognitoUserSession | undefined) => void,
 ): void {
   cognitoUser.completeNewPasswordChallenge(newPassword, userAttributes, {
-    onSuccess: (result) => {
+    onSuccess: (result: CognitoUserSession) => {
       logger.info({
         method: "CognitoBackend.changeUserPassword",
         message: "success",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(result);
     },
     onFailure: (result) => {
       logger.info({
@@ -85,6 +95,8 @@ function changeUserPassword(
         message: "failure",
         customDetails: JSON.stringify(result),
       });
+
+      resolve(undefined);
     },
   });
 }
-- 
2.43.0


From 3bc019a6248c821d26c3069a649903afeb8722bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 84/96] fix: list cameras of the groups that the authorizer
 gives

---
 .../src/lambda/list-cameras/list-cameras.ts        | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
index ba0eb8c..2dc7191 100644
--- a/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
+++ b/marine/marinecam/src/lambda/list-cameras/list-cameras.ts
@@ -5,14 +5,12 @@ import * as MetadataService from "../../service/metadata.js";
 
 const rdsHolder = RdsHolder.create();
 
-const GROUP_SEPARATOR = ",";
-
 interface ListCamerasEvent {
-  groups: string;
+  readonly "authorizer.groups"?: string;
 }
 
 export function handler(event: ListCamerasEvent): Promise<Camera[]> {
-  const usersGroups = getUserGroups(event.groups);
+  const usersGroups = getUserGroups(event["authorizer.groups"]);
 
   if (usersGroups.length === 0) {
     return Promise.resolve([] as Camera[]);
@@ -23,13 +21,11 @@ export function handler(event: ListCamerasEvent): Promise<Camera[]> {
     .then(() => MetadataService.listAllCameras(usersGroups));
 }
 
-// eventGroups is in form [group1, group2...]
-function getUserGroups(eventGroups: string): string[] {
+// eventGroups is the JSON-array written by the authorizer
+function getUserGroups(eventGroups: string | undefined): string[] {
   if (!eventGroups) {
     return [];
   }
 
-  const withoutBraces = eventGroups.substring(1, eventGroups.length - 1);
-
-  return withoutBraces.split(GROUP_SEPARATOR).map((s) => s.trim());
+  return JSON.parse(eventGroups) as string[];
 }
-- 
2.43.0


From 3bcea8f8d9370e2a960f0674e8a5ba85b6d224dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:06 +0000
Subject: [PATCH 85/96] fix: cache camera policies by path

---
 marine/marinecam/src/private-api.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marine/marinecam/src/private-api.ts b/marine/marinecam/src/private-api.ts
index 23b0001..cad0526 100644
--- a/marine/marinecam/src/private-api.ts
+++ b/marine/marinecam/src/private-api.ts
@@ -406,7 +406,11 @@ export class PrivateApi {
 
     return new RequestAuthorizer(this.stack, "images-authorizer", {
       handler: authFunction,
-      identitySources: [IdentitySource.header("Authorization")],
+      // the policies are for one path, so they must not be cached for another
+      identitySources: [
+        IdentitySource.header("Authorization"),
+        IdentitySource.context("path"),
+      ],
     });
   }
 }
-- 
2.43.0


From a0f4d5267a12b8bd112a6dda5eac7f9848b06fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 86/96] fix: decode the answers of OpenSearch as a whole

---
 other/opensearch-monitors/src/api/opensearch.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index 45d58e0..f446e81 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -111,14 +111,15 @@ export class OpenSearch {
       });
     }
 
-    let responseBody = "";
-    await new Promise((resolve) => {
-      response.body.on("data", (chunk: string) => {
-        responseBody += chunk;
+    // a character may be divided between chunks
+    const chunks: Buffer[] = [];
+    await new Promise<void>((resolve) => {
+      response.body.on("data", (chunk: Buffer) => {
+        chunks.push(chunk);
       });
 
       response.body.on("end", () => {
-        resolve(responseBody);
+        resolve();
       });
     }).catch((error) => {
       logException(logger, error);
@@ -126,7 +127,9 @@ export class OpenSearch {
       return undefined;
     });
 
-    return JSON.parse(responseBody) as OSMonitorsResponse;
+    return JSON.parse(
+      Buffer.concat(chunks).toString(),
+    ) as OSMonitorsResponse;
   }
 
   async getAllMonitors(): Promise<MonitorNameAndId[]> {
-- 
2.43.0


From 4fdb5536f223ba60940639ed40683d4183b07b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 87/96] fix: notice failures when replacing the OpenSearch
 monitors

---
 .../opensearch-monitors/src/api/opensearch.ts | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/other/opensearch-monitors/src/api/opensearch.ts b/other/opensearch-monitors/src/api/opensearch.ts
index f446e81..0203485 100644
--- a/other/opensearch-monitors/src/api/opensearch.ts
+++ b/other/opensearch-monitors/src/api/opensearch.ts
@@ -109,6 +109,9 @@ export class OpenSearch {
         customMonitorName: monitorName,
         customBody: body,
       });
+      throw new Error(
+        `OpenSearch.send failed with status ${response.statusCode}`,
+      );
     }
 
     // a character may be divided between chunks
@@ -186,7 +189,7 @@ export class OpenSearch {
       customCount: monitors.length,
     });
 
-    await Promise.allSettled(
+    const results = await Promise.allSettled(
       monitors.map(async (monitor) => {
         try {
           const response = await this.addMonitor(monitor);
@@ -207,6 +210,15 @@ export class OpenSearch {
         }
       }),
     );
+
+    const failed = monitors.filter((_, i) => results[i]?.status === "rejected");
+    if (failed.length > 0) {
+      throw new Error(
+        `OpenSearch.addMonitors failed. Monitors not added ${failed
+          .map((monitor) => monitor.name)
+          .join(", ")}`,
+      );
+    }
   }
 
   async checkMonitorsUptodate(expectedMonitors: OSMonitor[]): Promise<void> {
@@ -221,6 +233,19 @@ export class OpenSearch {
       (name) => !expectedNames.has(name),
     );
 
+    // an old monitor that could not be deleted may have the name of a new one
+    if (currentMonitors.length > expectedMonitors.length) {
+      const unseenNames = expectedMonitors.map((m) => m.name);
+      for (const { name } of currentMonitors) {
+        const index = unseenNames.indexOf(name);
+        if (index >= 0) {
+          unseenNames.splice(index, 1);
+        } else if (expectedNames.has(name)) {
+          unexpectedMonitors.push(name);
+        }
+      }
+    }
+
     const missingMonitors = [...expectedNames.keys()].filter(
       (name) => !currentNames.has(name),
     );
-- 
2.43.0


From 81d7bdaeb21d5ec9cf3d49cbaf6045c1e9e06c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 88/96] fix: keep dots out of the names of aggregations

---
 other/opensearch-monitors/src/monitor/monitor-builder.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/other/opensearch-monitors/src/monitor/monitor-builder.ts b/other/opensearch-monitors/src/monitor/monitor-builder.ts
index dc849be..dbf3977 100644
--- a/other/opensearch-monitors/src/monitor/monitor-builder.ts
+++ b/other/opensearch-monitors/src/monitor/monitor-builder.ts
@@ -122,7 +122,7 @@ export function aggregateTerms(
     innerAggregate?: TermsAggregate;
   },
 ): TermsAggregate {
-  name = name ?? field.replace(".", "_");
+  name = name ?? field.replaceAll(".", "_");
   return {
     [name]: {
       terms: {
-- 
2.43.0


From d1fbfbc5ab0a05f369c199333037e56dc552cb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:36 +0000
Subject: [PATCH 89/96] fix: keep the inner aggregation when buckets are
 filtered

---
 .../src/monitor/monitor-builder.ts            | 26 +++++++++++--------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/other/opensearch-monitors/src/monitor/monitor-builder.ts b/other/opensearch-monitors/src/monitor/monitor-builder.ts
index dbf3977..7f3381a 100644
--- a/other/opensearch-monitors/src/monitor/monitor-builder.ts
+++ b/other/opensearch-monitors/src/monitor/monitor-builder.ts
@@ -1,4 +1,8 @@
-import type { AggregateFilter, TermsAggregate } from "./aggregates.js";
+import type {
+  AggregateFilter,
+  BucketAggregate,
+  TermsAggregate,
+} from "./aggregates.js";
 import type { OSLogField } from "./fields.js";
 import type { OSMonitor } from "./monitor.js";
 import type {
@@ -128,18 +132,18 @@ export function aggregateTerms(
       terms: {
         field: field,
       },
-      ...(innerAggregate && {
-        aggregations: innerAggregate,
-      }),
-      ...(bucketFilter && {
+      ...((innerAggregate || bucketFilter) && {
         aggregations: {
-          [bucketFilter.name]: {
-            bucket_selector: {
-              buckets_path: bucketFilter.bucketPaths,
-              script: bucketFilter.script,
+          ...innerAggregate,
+          ...(bucketFilter && {
+            [bucketFilter.name]: {
+              bucket_selector: {
+                buckets_path: bucketFilter.bucketPaths,
+                script: bucketFilter.script,
+              },
             },
-          },
-        },
+          }),
+        } as BucketAggregate | TermsAggregate,
       }),
     },
   };
-- 
2.43.0


From e6da25b7a53700675ad957c4a80731b0337da2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:52 +0000
Subject: [PATCH 90/96] fix: list endpoints whose requests are not saved

---
 .../src/lambda/create-visualizations.ts        | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/other/os-key-figures/src/lambda/create-visualizations.ts b/other/os-key-figures/src/lambda/create-visualizations.ts
index 3505acd..022b10e 100644
--- a/other/os-key-figures/src/lambda/create-visualizations.ts
+++ b/other/os-key-figures/src/lambda/create-visualizations.ts
@@ -274,7 +274,7 @@ async function createDetailPage(filter: string): Promise<string> {
 async function createIndex(): Promise<string> {
   const filters = (await query(
     "select distinct kf_outer.filter as filter, (select kf_inner.value from key_figures kf_inner where kf_inner.filter = kf_outer.filter and kf_inner.name = 'Http req' order by kf_inner.`from` desc limit 1) as filterValue from key_figures kf_outer  order by filterValue desc",
-  )) as { filter: string; filterValue: number }[];
+  )) as { filter: string; filterValue: number | null }[];
   const filterHeader =
     "<table><tr><th>Endpoint</th><th>Requests (last month)</th></tr>";
 
@@ -284,7 +284,9 @@ async function createIndex(): Promise<string> {
   )) {
     roadFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${(
+      row.filterValue ?? "-"
+    )
       .toString()
       .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
   }
@@ -296,7 +298,9 @@ async function createIndex(): Promise<string> {
   )) {
     railFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${(
+      row.filterValue ?? "-"
+    )
       .toString()
       .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
   }
@@ -308,7 +312,9 @@ async function createIndex(): Promise<string> {
   )) {
     marineFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${(
+      row.filterValue ?? "-"
+    )
       .toString()
       .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
   }
@@ -320,7 +326,9 @@ async function createIndex(): Promise<string> {
   )) {
     afirFilterHtml += `<tr><td><a href="${base64encodeFilter(
       row.filter,
-    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${row.filterValue
+    )}.html">${friendlyFilterString(row.filter)}</a></td><td>${(
+      row.filterValue ?? "-"
+    )
       .toString()
       .replace(/\B(?=(\d{3})+(?!\d))/g, ",")}</td></tr>`;
   }
-- 
2.43.0


From 77495987c3deb72152b905b722b5e856c7da1c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:52 +0000
Subject: [PATCH 91/96] fix: keep names like those of object members in the
 graphs

---
 .../src/lambda/create-visualizations.ts          | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/other/os-key-figures/src/lambda/create-visualizations.ts b/other/os-key-figures/src/lambda/create-visualizations.ts
index 022b10e..4cd39d8 100644
--- a/other/os-key-figures/src/lambda/create-visualizations.ts
+++ b/other/os-key-figures/src/lambda/create-visualizations.ts
@@ -71,26 +71,26 @@ function createGraph(
 function topDataToGraphData(
   data: KeyFigure[],
 ): { values: [Date, number][]; key: string }[] {
-  const output: { [key: string]: [Date, number][] } = {};
+  const output = new Map<string, [Date, number][]>();
   for (const rivi of data) {
     const valueJson = JSON.parse(rivi.value as string) as Record<
       string,
       number
     >;
     for (const [key, value] of Object.entries(valueJson)) {
-      let item = output[key];
+      let item = output.get(key);
       if (!item) {
         item = [];
       }
 
       item.push([rivi.from, value]);
-      output[key] = item;
+      output.set(key, item);
     }
   }
 
   const highlightData: { values: [Date, number][]; key: string }[] = [];
 
-  for (const [key, values] of Object.entries(output)) {
+  for (const [key, values] of output) {
     highlightData.push({ key, values });
   }
 
@@ -100,20 +100,20 @@ function topDataToGraphData(
 function endDataToGraphData(
   data: KeyFigure[],
 ): { values: [Date, number][]; key: string }[] {
-  const output: { [key: string]: [Date, number][] } = {};
+  const output = new Map<string, [Date, number][]>();
   for (const rivi of data) {
     const value = rivi.value as number;
-    let item = output[rivi.filter];
+    let item = output.get(rivi.filter);
     if (!item) {
       item = [];
     }
     item.push([rivi.from, value]);
-    output[rivi.filter] = item;
+    output.set(rivi.filter, item);
   }
 
   const highlightData: { values: [Date, number][]; key: string }[] = [];
 
-  for (const [key, values] of Object.entries(output)) {
+  for (const [key, values] of output) {
     highlightData.push({ key: friendlyFilterString(key), values });
   }
 
-- 
2.43.0


From 2af3af1ecdb7a4b72ac4259a0fe274c7561bb25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:52 +0000
Subject: [PATCH 92/96] fix: escape names in the scripts of the key figure
 pages

---
 .../src/lambda/create-visualizations.ts       | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/other/os-key-figures/src/lambda/create-visualizations.ts b/other/os-key-figures/src/lambda/create-visualizations.ts
index 4cd39d8..a2b7e7b 100644
--- a/other/os-key-figures/src/lambda/create-visualizations.ts
+++ b/other/os-key-figures/src/lambda/create-visualizations.ts
@@ -68,6 +68,11 @@ function createGraph(
   `;
 }
 
+/** A string for an inline script: names come from request headers and must not end the script. */
+function toJavaScriptString(value: string): string {
+  return JSON.stringify(value).replace(/</g, "\\u003c");
+}
+
 function topDataToGraphData(
   data: KeyFigure[],
 ): { values: [Date, number][]; key: string }[] {
@@ -191,7 +196,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -205,7 +210,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -219,7 +224,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -233,7 +238,7 @@ async function createDetailPage(filter: string): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -392,7 +397,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -407,7 +412,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -422,7 +427,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -437,7 +442,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -452,7 +457,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -467,7 +472,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
@@ -482,7 +487,7 @@ async function createIndex(): Promise<string> {
             )) as KeyFigure[],
           ).map(
             (s) =>
-              `{key:'${s.key}', values: [${s.values.map(
+              `{key:${toJavaScriptString(s.key)}, values: [${s.values.map(
                 (o) => `[${o[0].getTime()}, ${o[1]}]`,
               )} ] }`,
           ),
-- 
2.43.0


From 6be0524539bccc564bd16543917906336ae6b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:35:25 +0000
Subject: [PATCH 93/96] fix: encode the parameters passed on to the schedules'
 source

---
 .../src/lambda/get-schedules/lambda-get-schedules.ts         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
index bccc7fd..a1d9364 100644
--- a/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
+++ b/marine/voyage-plan-gateway/src/lambda/get-schedules/lambda-get-schedules.ts
@@ -70,7 +70,8 @@ function handleQueryParam(
   queryParams: Record<string, string | undefined>,
   params: string[],
 ): void {
-  if (queryParams[param] !== undefined) {
-    params.push(`${param}=${queryParams[param]}`);
+  const value = queryParams[param];
+  if (value !== undefined) {
+    params.push(`${param}=${encodeURIComponent(value)}`);
   }
 }
-- 
2.43.0


From 6a67af4c6b22e35f6ab0fa239524f7a474270401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:52 +0000
Subject: [PATCH 94/96] fix: a request at midnight between two months belongs
 to the later one only

The first moment of the next month was counted in both months' key figures.
---
 .../src/adapters/driven/opensearch/metric-query.ts              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
index 15fa0b8..0339fee 100644
--- a/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
+++ b/other/os-key-figures/src/adapters/driven/opensearch/metric-query.ts
@@ -99,7 +99,7 @@ export abstract class AccessLogQuery extends MetricQuery {
           range: {
             "@timestamp": {
               gte: startTime,
-              lte: endTime,
+              lt: endTime,
               format: "strict_date_optional_time",
             },
           },
-- 
2.43.0


From 4d3ca4f04724fe901cb2b86e8f54bfd9be33cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:52 +0000
Subject: [PATCH 95/96] fix: a maintenance tracking message that could not be
 saved stays in the queue

---
 .../src/lambda/process-queue/process-queue.ts | 19 +++++++++++++++++--
 .../src/service/maintenance-tracking.ts       |  7 ++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
index f5c7bfe..4e49bdf 100644
--- a/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
+++ b/road/maintenance-tracking/src/lambda/process-queue/process-queue.ts
@@ -6,7 +6,10 @@ import type { SQSEvent } from "aws-lambda";
 import type { ExtendedSqsClient } from "sqs-extended-client";
 import { MaintenanceTrackingEnvKeys } from "../../keys.js";
 import type { TyokoneenseurannanKirjaus } from "../../model/models.js";
-import { handleMessage } from "../../service/maintenance-tracking.js";
+import {
+  handleMessage,
+  ObservationSaveError,
+} from "../../service/maintenance-tracking.js";
 import {
   createExtendedSqsClient,
   createSqsReceiveMessageCommandOutput,
@@ -79,7 +82,9 @@ export function handlerFn(
 
     // logger.debug({ method, message: "extendedSqsMessage.Messages", value: extendedSqsMessage });
 
-    return Promise.allSettled(
+    const saveErrors: ObservationSaveError[] = [];
+
+    const results = await Promise.allSettled(
       extendedSqsMessage.Messages.map(async (m) => {
         try {
           if (m.Body) {
@@ -97,6 +102,10 @@ export function handlerFn(
           }
           return Promise.reject();
         } catch (e) {
+          if (e instanceof ObservationSaveError) {
+            saveErrors.push(e);
+            return Promise.reject(e);
+          }
           logger.error({
             method,
             message: `Message handling failed: Invalid JSON.`,
@@ -116,5 +125,11 @@ export function handlerFn(
         }
       }),
     );
+
+    // Keep the messages in the queue when saving has failed
+    if (saveErrors[0]) {
+      throw saveErrors[0];
+    }
+    return results;
   };
 }
diff --git a/road/maintenance-tracking/src/service/maintenance-tracking.ts b/road/maintenance-tracking/src/service/maintenance-tracking.ts
index e755db1..5c15de0 100644
--- a/road/maintenance-tracking/src/service/maintenance-tracking.ts
+++ b/road/maintenance-tracking/src/service/maintenance-tracking.ts
@@ -101,6 +101,9 @@ export function convertToDbObservationData(
   };
 }
 
+/** Saving of a valid message failed, so it has to be handled again */
+export class ObservationSaveError extends Error {}
+
 export async function handleMessage(
   payload: TyokoneenseurannanKirjaus,
 ): Promise<void> {
@@ -155,7 +158,9 @@ export async function handleMessage(
       )}`,
       error: e,
     });
-    return Promise.reject(e);
+    return Promise.reject(
+      new ObservationSaveError("Saving of observations failed", { cause: e }),
+    );
   }
   return Promise.resolve();
 }
-- 
2.43.0


From 250bf3f953bc18e147756f4e0ec5a2f08f72050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:02:52 +0000
Subject: [PATCH 96/96] fix: the cleaning of maintenance trackings is waited
 for

---
 .../clean-maintenance-tracking-data.ts                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts b/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
index 2b27940..46cc55d 100644
--- a/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
+++ b/road/maintenance-tracking/src/lambda/clean-maintenance-tracking-data/clean-maintenance-tracking-data.ts
@@ -5,9 +5,9 @@ import { cleanMaintenanceTrackingData } from "../../service/maintenance-tracking
 
 const proxyHolder = ProxyHolder.create();
 
-export const handler: Handler = (): void => {
+export const handler: Handler = (): Promise<void> => {
   const start = Date.now();
-  proxyHolder
+  return proxyHolder
     .setCredentials()
     .then(() => {
       logger.debug(
-- 
2.43.0

