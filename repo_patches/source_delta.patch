From 43b41867ac420446c16a6d25054f551a80f05d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 01/38] fix: compare bitmask, string and big integer parameters
 by value when writing

An object whose compound field takes such a parameter from an expression could be read
but never written again: the expression makes a new equal instance every time it is
evaluated and the write check compared identities.
---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 8 ++++++++
 .../extensions/python/freemarker/CompoundField.inc.ftl    | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 691520c..6a2ef5d 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -294,6 +294,14 @@ ${I}if (${parameterValue} != ${instantiatedValue})
 ${I}{
 ${I}    throw new zserio.runtime.ZserioError("Write: Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: " +
 ${I}            ${parameterValue} + " != " + ${instantiatedValue} + "!");
+${I}}
+            <#elseif parameter.typeInfo.isBitmask || parameter.typeInfo.typeFullName == "java.math.BigInteger" ||
+                    parameter.typeInfo.typeFullName == "java.lang.String">
+                <#-- immutable value types: equal values are not necessarily the same instance -->
+${I}if (!java.util.Objects.equals(<@compound_get_field field/>.${parameter.getterName}(), ${instantiatedParameter.expression}))
+${I}{
+${I}    throw new zserio.runtime.ZserioError("Write: Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: " +
+${I}            <@compound_get_field field/>.${parameter.getterName}() + " != " + (${instantiatedParameter.expression}) + "!");
 ${I}}
             <#else>
 ${I}if (<@compound_get_field field/>.${parameter.getterName}() != (${instantiatedParameter.expression}))
diff --git a/compiler/extensions/python/freemarker/CompoundField.inc.ftl b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
index 1899346..e23c479 100644
--- a/compiler/extensions/python/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
@@ -359,7 +359,7 @@ ${I}                                        "{0} != {1}!".format(len(self.<@fiel
 ${I}# check parameters
         <#list field.compound.instantiatedParameters as instantiatedParameter>
             <#local parameter=field.compound.parameters.list[instantiatedParameter?index]/>
-            <#local compareOperator><#if parameter.typeInfo.isBuiltin>!=<#else>is not</#if><#t></#local>
+            <#local compareOperator><#if parameter.typeInfo.isBuiltin || parameter.typeInfo.isBitmask>!=<#else>is not</#if><#t></#local>
 ${I}if self.<@field_member_name field/>.${parameter.propertyName} ${compareOperator} (${instantiatedParameter.expression}):
 ${I}    raise zserio.PythonRuntimeException("Wrong parameter ${parameter.name} for field ${compoundName}.${field.name}: "
 ${I}                                        "{0} != {1}!".format(self.<@field_member_name field/>.${parameter.propertyName}, ${instantiatedParameter.expression}))
-- 
2.43.0


From 8a16f6616eadc605f5136d694a551ac91e6ecb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 02/38] fix: Java reads an absent optional field as absent even
 if it has a default value

The field initializer survived the read, so data without the field was read as data
holding the default. Likewise a value of a previous read survived in a reused object.
---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 6a2ef5d..9750d55 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -127,6 +127,10 @@ ${I}if (in.readBool())
         </#if>
 ${I}{
         <@compound_read_field_inner field, compoundName, indent + 1, packed/>
+${I}}
+${I}else
+${I}{
+${I}    <@field_member_name field/> = null;
 ${I}}
     <#else>
         <@compound_read_field_inner field, compoundName, indent, packed/>
-- 
2.43.0


From 4af3edcd93a6a22b93905ebf3d0047e3183860ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 03/38] fix: reading into a used object resets its extended
 fields

The number of present extended fields was only ever incremented by read(), so an object
reused for reading claimed (and wrote) extended fields its data does not have.
---
 .../java/freemarker/Structure.java.ftl        | 34 +++++++++++++++++--
 .../python/freemarker/Structure.py.ftl        |  6 ++++
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Structure.java.ftl b/compiler/extensions/java/freemarker/Structure.java.ftl
index 7a53f56..422e250 100644
--- a/compiler/extensions/java/freemarker/Structure.java.ftl
+++ b/compiler/extensions/java/freemarker/Structure.java.ftl
@@ -18,6 +18,21 @@
 <@doc_comments docComments/>
 </#if>
 <#assign numExtendedFields=num_extended_fields(fieldList)>
+<#macro field_initializer field>
+    <#local longCast=field.typeInfo.isLong && !field.typeInfo.isSimple/>
+    <#if longCast>(long)(</#if>${field.initializer}<#if longCast>)</#if><#t>
+</#macro>
+<#macro field_default_value field>
+    <#if field.initializer??>
+        <@field_initializer field/><#t>
+    <#elseif !field.typeInfo.isSimple || field.optional??>
+        null<#t>
+    <#elseif field.typeInfo.isBoolean>
+        false<#t>
+    <#else>
+        0<#t>
+    </#if>
+</#macro>
 <#function extended_field_index numFields numExtendedFields fieldIndex>
     <#return fieldIndex - (numFields - numExtendedFields)>
 </#function>
@@ -410,6 +425,10 @@ public class ${name} implements <#rt>
             throws java.io.IOException
     {
 <#if fieldList?has_content>
+    <#if (numExtendedFields > 0)>
+        this.numExtendedFields = 0;
+
+    </#if>
     <#list fieldList as field>
         <#if field.isExtended>
     if (zserio.runtime.BitPositionUtil.alignTo(java.lang.Byte.SIZE, in.getBitPosition()) < in.getBufferBitSize())
@@ -418,6 +437,10 @@ public class ${name} implements <#rt>
         in.alignTo(java.lang.Byte.SIZE);
 
         <@compound_read_field field, name, 3/>
+    }
+    else
+    {
+        <@field_member_name field/> = <@field_default_value field/>;
     }
         <#else>
     <@compound_read_field field, name, 2/>
@@ -452,6 +475,10 @@ public class ${name} implements <#rt>
     <#if uses_packing_context(fieldList)>
         final ZserioPackingContext zserioContext = context.cast();
     </#if>
+    <#if (numExtendedFields > 0)>
+        this.numExtendedFields = 0;
+
+    </#if>
     <#list fieldList as field>
         <#if field.isExtended>
     if (zserio.runtime.BitPositionUtil.alignTo(java.lang.Byte.SIZE, in.getBitPosition()) < in.getBufferBitSize())
@@ -460,6 +487,10 @@ public class ${name} implements <#rt>
         in.alignTo(java.lang.Byte.SIZE);
 
         <@compound_read_field field, name, 3, true/>
+    }
+    else
+    {
+        <@field_member_name field/> = <@field_default_value field/>;
     }
         <#else>
     <@compound_read_field field, name, 2, true/>
@@ -582,8 +613,7 @@ public class ${name} implements <#rt>
 <#list fieldList as field>
     private <@field_java_type_member_name field/> <@field_member_name field/><#rt>
     <#if field.initializer??>
-        <#assign longCast=field.typeInfo.isLong && !field.typeInfo.isSimple />
-        <#lt> = <#if longCast>(long)(</#if>${field.initializer}<#if longCast>)</#if><#rt>
+        <#lt> = <@field_initializer field/><#rt>
     </#if>
     <#lt>;
 </#list>
diff --git a/compiler/extensions/python/freemarker/Structure.py.ftl b/compiler/extensions/python/freemarker/Structure.py.ftl
index 6138e3c..1d0ffc1 100644
--- a/compiler/extensions/python/freemarker/Structure.py.ftl
+++ b/compiler/extensions/python/freemarker/Structure.py.ftl
@@ -505,6 +505,9 @@ ${I}<#rt>
 
 </#if>
 <#if fieldList?has_content>
+    <#if (numExtendedFields > 0)>
+        self._num_extended_fields = 0
+    </#if>
     <#list fieldList as field>
         <#if field.isExtended>
         if zserio.bitposition.alignto(8, zserio_reader.bitposition) >= zserio_reader.buffer_bitsize:
@@ -546,6 +549,9 @@ ${I}<#rt>
         <#if !uses_packing_context(fieldList)>
         del zserio_context
 
+        </#if>
+        <#if (numExtendedFields > 0)>
+        self._num_extended_fields = 0
         </#if>
         <#list fieldList as field>
             <#if field.isExtended>
-- 
2.43.0


From 3c08f98a260e0e3e918a511070ec007f68f173cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:22 +0000
Subject: [PATCH 04/38] fix: Java deserialize(BitBuffer) honours the bit size
 of the bit buffer

---
 .../src/zserio/runtime/io/SerializeUtil.java  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
index 78bd4c3..4c5f978 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/SerializeUtil.java
@@ -105,7 +105,14 @@ public final class SerializeUtil
      */
     public static <T> T deserialize(Class<T> clazz, BitBuffer bitBuffer, Object... arguments)
     {
-        return deserializeFromBytes(clazz, bitBuffer.getBuffer(), arguments);
+        try (final BitStreamReader reader = new ByteArrayBitStreamReader(bitBuffer))
+        {
+            return deserializeFromReader(clazz, reader, arguments);
+        }
+        catch (IOException exception)
+        {
+            throw new ZserioError("SerializeUtil: " + exception, exception);
+        }
     }
 
     /**
@@ -132,7 +139,15 @@ public final class SerializeUtil
     public static <T> T deserialize(Class<T> clazz, BitBuffer bitBuffer,
             PreallocatedArraySize maxPreallocatedArraySize, Object... arguments)
     {
-        return deserializeFromBytes(clazz, bitBuffer.getBuffer(), maxPreallocatedArraySize, arguments);
+        try (final BitStreamReader reader = new ByteArrayBitStreamReader(
+                     bitBuffer, maxPreallocatedArraySize.get()))
+        {
+            return deserializeFromReader(clazz, reader, arguments);
+        }
+        catch (IOException exception)
+        {
+            throw new ZserioError("SerializeUtil: " + exception, exception);
+        }
     }
 
     /**
-- 
2.43.0


From 6bd3d9803f8c964f188965840cadbbc18d6f50d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 05/38] fix: Java bit stream reader never reads aligned values
 behind the last bit

---
 .../runtime/io/ByteArrayBitStreamReader.java  | 50 +++++++++++++------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
index 3574bff..74dc08b 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/io/ByteArrayBitStreamReader.java
@@ -117,7 +117,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         byte result;
         if (bitOffset == 0)
         {
-            result = nextByte();
+            result = nextAlignedByte();
         }
         else
         {
@@ -138,8 +138,8 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         short result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
+            final byte b0 = nextAlignedByte();
+            final byte b1 = nextAlignedByte();
             result = makeShort(b0, b1);
         }
         else
@@ -161,10 +161,10 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         int result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
+            final byte b0 = nextAlignedByte();
+            final byte b1 = nextAlignedByte();
+            final byte b2 = nextAlignedByte();
+            final byte b3 = nextAlignedByte();
             result = makeInt(b0, b1, b2, b3);
         }
         else
@@ -186,14 +186,14 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         long result;
         if (bitOffset == 0)
         {
-            final byte b0 = nextByte();
-            final byte b1 = nextByte();
-            final byte b2 = nextByte();
-            final byte b3 = nextByte();
-            final byte b4 = nextByte();
-            final byte b5 = nextByte();
-            final byte b6 = nextByte();
-            final byte b7 = nextByte();
+            final byte b0 = nextAlignedByte();
+            final byte b1 = nextAlignedByte();
+            final byte b2 = nextAlignedByte();
+            final byte b3 = nextAlignedByte();
+            final byte b4 = nextAlignedByte();
+            final byte b5 = nextAlignedByte();
+            final byte b6 = nextAlignedByte();
+            final byte b7 = nextAlignedByte();
             result = makeLong(b0, b1, b2, b3, b4, b5, b6, b7);
         }
         else
@@ -751,7 +751,7 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
 
     private int read(final byte[] dest, final int offset, final int length) throws IOException
     {
-        if (bytePosition + length - 1 >= buffer.length)
+        if (8L * bytePosition + 8L * length > getBufferBitSize())
             throw new IOException("ByteArrayBitStreamReader: Unable to read " + length +
                     " bytes on offset position " + bytePosition +
                     ". It's beyond end of the stream with length " + buffer.length + ".");
@@ -782,6 +782,24 @@ public class ByteArrayBitStreamReader extends ByteArrayBitStreamBase implements
         return buffer[bytePosition++];
     }
 
+    /**
+     * Returns the next byte when the current position is aligned to byte.
+     *
+     * @return Read next byte.
+     *
+     * @throws IOException If the reading failed or if the whole byte is not available.
+     */
+    private byte nextAlignedByte() throws IOException
+    {
+        if (bytePosition + 1 == buffer.length && lastByteBits < 8) // check if whole byte is available
+        {
+            throw new IOException("ByteArrayBitStreamReader: Unable to read bit on offset position " +
+                    lastByteBits + " in the last byte.");
+        }
+
+        return nextByte();
+    }
+
     /**
      * Returns the next unsigned byte without resetting the bit offset.
      *
-- 
2.43.0


From b02e6afc931e9bd4a0e325a2c7450c13a615e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 06/38] fix: C++ varsize range check sees all bits of the read
 value

---
 .../cpp/runtime/src/zserio/BitStreamReader.cpp         | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
index c4448df..c3fdbd6 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitStreamReader.cpp
@@ -804,14 +804,16 @@ uint32_t BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // byte 5, the value can have up to 36 bits here
+    const uint64_t longResult =
+            static_cast<uint64_t>(result) << 8U | static_cast<uint8_t>(readBitsImpl(m_context, 8));
+    if (longResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << longResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(longResult);
 }
 
 float BitStreamReader::readFloat16()
-- 
2.43.0


From a1ea211acf8b4e95e1546bf864d3b379db583e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:48 +0000
Subject: [PATCH 07/38] fix: Java reports an array length which does not fit
 into int as an IOException

---
 .../java/runtime/src/zserio/runtime/array/Array.java  | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
index 35ec4fa..64e027b 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/array/Array.java
@@ -284,6 +284,7 @@ public final class Array
         {
             readSize = reader.readVarSize();
         }
+        checkReadSize(readSize);
 
         if (arrayTraits.isBitSizeOfConstant())
         {
@@ -338,6 +339,7 @@ public final class Array
         checkIfPackable();
 
         final int readSize = (arrayType == ArrayType.AUTO) ? reader.readVarSize() : size;
+        checkReadSize(readSize);
         resetRawArray(readSize, reader);
 
         if (readSize > 0)
@@ -426,6 +428,15 @@ public final class Array
             throw new UnsupportedOperationException("Array: Implicit array cannot be packed!");
     }
 
+    private static void checkReadSize(int readSize) throws IOException
+    {
+        if (readSize < 0)
+        {
+            throw new IOException(
+                    "Array: Array size " + Integer.toUnsignedString(readSize) + " is out of range!");
+        }
+    }
+
     private void resetRawArray(int readSize, BitStreamReader reader)
     {
         final int maxPreallocatedArraySize = reader.getMaxPreallocatedArraySize();
-- 
2.43.0


From 04c945b00d9e43047e1f97806579afdd410b6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:20 +0000
Subject: [PATCH 08/38] fix: Python objects do not share the default value of
 bytes fields

---
 .../python/freemarker/Structure.py.ftl         | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/python/freemarker/Structure.py.ftl b/compiler/extensions/python/freemarker/Structure.py.ftl
index 1d0ffc1..d350987 100644
--- a/compiler/extensions/python/freemarker/Structure.py.ftl
+++ b/compiler/extensions/python/freemarker/Structure.py.ftl
@@ -25,21 +25,29 @@ class ${name}:
     <#elseif field.optional??>
         None<#t>
     <#else>
-        <#if field.typeInfo.isBuiltin>
+        <#if field.typeInfo.isBuiltin && !field.typeInfo.isBytes>
         ${field.typeInfo.typeFullName}()<#t>
         <#else>
         None<#t>
         </#if>
     </#if>
 </#macro>
+<#-- mutable default value must not be shared by all objects -->
+<#function has_mutable_default_value field>
+    <#return field.typeInfo.isBytes && !field.array?? && !field.optional?? && !field.initializer??>
+</#function>
 <#if constructorAnnotatedParamList?has_content || fieldList?has_content>
     def __init__(
             self<#if constructorAnnotatedParamList?has_content>,
             <#lt>${constructorAnnotatedParamList}</#if><#rt>
     <#list fieldList as field>
             <#lt>,
-            <#nt><@field_argument_name field/>: <@field_annotation_argument_type_name field, name/> = <#rt>
-            <@field_default_value field/>
+            <#nt><@field_argument_name field/>: <#rt>
+        <#if has_mutable_default_value(field)>
+            <#t>typing.Optional[${field.typeInfo.typeFullName}] = None<#t>
+        <#else>
+            <#t><@field_annotation_argument_type_name field, name/> = <@field_default_value field/><#t>
+        </#if>
     </#list>
             <#lt>) -> None:
     <#if withCodeComments>
@@ -58,6 +66,10 @@ class ${name}:
         self._num_extended_fields = ${fieldList?size}
     </#if>
     <#list fieldList as field>
+        <#if has_mutable_default_value(field)>
+        if <@field_argument_name field/> is None:
+            <@field_argument_name field/> = ${field.typeInfo.typeFullName}()
+        </#if>
         <@compound_setter_field field, 2/>
     </#list>
 
-- 
2.43.0


From e971deee9d23cb9f935b6e0aa5ca35721d1c3a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 09/38] fix: Python choice read in an empty case has no choice
 set

An object read from a reader in a case without a field had no '_choice' attribute
at all (comparison raised AttributeError), and a used object kept the previous one.
---
 compiler/extensions/python/freemarker/Choice.py.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/python/freemarker/Choice.py.ftl b/compiler/extensions/python/freemarker/Choice.py.ftl
index 310293e..c95f842 100644
--- a/compiler/extensions/python/freemarker/Choice.py.ftl
+++ b/compiler/extensions/python/freemarker/Choice.py.ftl
@@ -509,7 +509,7 @@ ${I}pass
         <@compound_read_field member.compoundField, name, indent, packed/>
     <#else>
         <#local I>${""?left_pad(indent * 4)}</#local>
-${I}pass
+${I}self._choice = None
     </#if>
 </#macro>
     def read(self, zserio_reader: zserio.BitStreamReader) -> None:
-- 
2.43.0


From a1f86ebe9f089a31afb36853c1c8b03218cf5c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:34 +0000
Subject: [PATCH 10/38] fix: Java choice and union compare bytes fields by
 value

objectChoice.equals() compared byte[] members by reference.
---
 compiler/extensions/java/freemarker/Choice.java.ftl | 5 +----
 compiler/extensions/java/freemarker/Union.java.ftl  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 0529c9d..779ac48 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -368,10 +368,7 @@ ${I}break;
                     <@compound_compare_parameter parameter/><#if parameter?has_next || fieldList?has_content> &&<#else>;</#if>
     </#list>
     <#if fieldList?has_content>
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
diff --git a/compiler/extensions/java/freemarker/Union.java.ftl b/compiler/extensions/java/freemarker/Union.java.ftl
index f22e86f..b57638a 100644
--- a/compiler/extensions/java/freemarker/Union.java.ftl
+++ b/compiler/extensions/java/freemarker/Union.java.ftl
@@ -280,10 +280,7 @@ public class ${name} implements <#rt>
     </#list>
     <#if fieldList?has_content>
                     choiceTag == that.choiceTag &&
-                    (
-                        (objectChoice == null && that.objectChoice == null) ||
-                        (objectChoice != null && objectChoice.equals(that.objectChoice))
-                    );
+                    java.util.Objects.deepEquals(objectChoice, that.objectChoice);
     </#if>
         }
 
-- 
2.43.0


From 5bf883634284fe33a1a9812469dffa6b31a7e84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 11/38] fix: Java choice read in an empty case has no choice
 set

---
 compiler/extensions/java/freemarker/Choice.java.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/Choice.java.ftl b/compiler/extensions/java/freemarker/Choice.java.ftl
index 779ac48..e9d0ee7 100644
--- a/compiler/extensions/java/freemarker/Choice.java.ftl
+++ b/compiler/extensions/java/freemarker/Choice.java.ftl
@@ -422,7 +422,7 @@ ${I}break;
         <@compound_read_field member.compoundField, name, indent, packed/>
         <@compound_check_constraint_field member.compoundField, name, indent/>
     <#else>
-${I}// empty
+${I}objectChoice = null;
     </#if>
     <#if isSwitchAllowed>
 ${I}break;
-- 
2.43.0


From c431afb1a4d46040fe35c9cf23b631d0d5829da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:10 +0000
Subject: [PATCH 12/38] fix: Java equals does not throw if only one of two
 optional enum values is set

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl     | 4 ++--
 compiler/extensions/java/freemarker/CompoundParameter.inc.ftl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 9750d55..1d17696 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -332,8 +332,8 @@ java.lang.Double.doubleToLongBits(<@compound_get_field field/>) == java.lang.Dou
     <#elseif field.typeInfo.isBytes>
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : java.util.Arrays.equals(<@compound_get_field field/>, that.<@compound_get_field field/>))<#rt>
     <#elseif field.typeInfo.isEnum>
-        <#-- enum type: compare by getValue() and == -->
-((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.getValue() == that.<@compound_get_field field/>.getValue())<#rt>
+        <#-- enum type: compare by == (one of the values may be null) -->
+<@compound_get_field field/> == that.<@compound_get_field field/><#rt>
     <#else>
         <#-- complex type: compare by equals() but check for possible null -->
 ((<@compound_get_field field/> == null) ? that.<@compound_get_field field/> == null : <@compound_get_field field/>.equals(that.<@compound_get_field field/>))<#rt>
diff --git a/compiler/extensions/java/freemarker/CompoundParameter.inc.ftl b/compiler/extensions/java/freemarker/CompoundParameter.inc.ftl
index 6b6b16d..a0a229d 100644
--- a/compiler/extensions/java/freemarker/CompoundParameter.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundParameter.inc.ftl
@@ -67,8 +67,8 @@ this.<@parameter_member_name parameter/> == that.<@parameter_member_name paramet
     <#elseif parameter.typeInfo.isBytes>
 ((this.<@parameter_member_name parameter/> == null) ? that.<@parameter_member_name parameter/> == null : java.util.Arrays.equals(<@parameter_member_name parameter/>, that.<@parameter_member_name parameter/>))<#rt>
     <#elseif parameter.typeInfo.isEnum>
-        <#-- enum type: compare by getValue() and == -->
-((this.<@parameter_member_name parameter/> == null) ? that.<@parameter_member_name parameter/> == null : this.<@parameter_member_name parameter/>.getValue() == that.<@parameter_member_name parameter/>.getValue())<#rt>
+        <#-- enum type: compare by == (one of the values may be null) -->
+this.<@parameter_member_name parameter/> == that.<@parameter_member_name parameter/><#rt>
     <#else>
         <#-- compare with equals() but account for possible null -->
 ((this.<@parameter_member_name parameter/> == null) ? that.<@parameter_member_name parameter/> == null : this.<@parameter_member_name parameter/>.equals(that.<@parameter_member_name parameter/>))<#rt>
-- 
2.43.0


From 1d1ca40960c90dfadeb18f935afaba0dd9b9a887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 13/38] fix: arrays of dynamic bit fields use the current bit
 size (Java, Python)

The bit size of the elements was evaluated when the array was set, so that an
object whose size field was set later was written with a stale element size.
---
 .../java/freemarker/CompoundField.inc.ftl        | 16 +++++++++++++---
 .../python/freemarker/CompoundField.inc.ftl      | 16 +++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 1d17696..71cdabb 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -34,6 +34,16 @@
     <@array_wrapper_constructor_inner field, "", indent/>
 </#macro>
 
+<#macro array_wrapper_access field indent>
+    <#if field.array.elementBitSize?? && field.array.elementBitSize.isDynamicBitField>
+        <#-- bit size of the elements might have been changed since the array has been set -->
+        <#local rawArray><@compound_get_field field/>.getRawArray()</#local>
+        <@array_wrapper_constructor_inner field, rawArray, indent/><#t>
+    <#else>
+        <@compound_get_field field/><#t>
+    </#if>
+</#macro>
+
 <#macro array_wrapper_constructor_inner field rawArray indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
 new ${field.array.wrapperJavaTypeName}(
@@ -243,7 +253,7 @@ ${I}        new ${field.typeInfo.arrayableInfo.arrayElement}(<@compound_get_fiel
 ${I}<@compound_get_field field/>.write(zserioContext.${field.getterName}(), out);
         </#if>
     <#elseif field.array??>
-${I}<@compound_get_field field/>.write<@array_field_packed_suffix field, packed/>(out);
+${I}<@array_wrapper_access field, indent + 2/>.write<@array_field_packed_suffix field, packed/>(out);
     <#elseif field.runtimeFunction??>
 ${I}out.write${field.runtimeFunction.suffix}(<@compound_get_field field/><#if field.runtimeFunction.arg??>, ${field.runtimeFunction.arg}</#if>);
     <#else>
@@ -390,7 +400,7 @@ ${I}        new ${field.typeInfo.arrayableInfo.arrayElement}(<@compound_get_fiel
 ${I}endBitPosition += <@compound_get_field field/>.bitSizeOf(zserioContext.${field.getterName}(), endBitPosition);
         </#if>
     <#elseif field.array??>
-${I}endBitPosition += <@compound_get_field field/>.bitSizeOf<@array_field_packed_suffix field, packed/>(endBitPosition);
+${I}endBitPosition += <@array_wrapper_access field, indent + 2/>.bitSizeOf<@array_field_packed_suffix field, packed/>(endBitPosition);
     <#elseif field.bitSize??>
 ${I}endBitPosition += ${field.bitSize.value};
     <#elseif field.runtimeFunction??>
@@ -451,7 +461,7 @@ ${I}        new ${field.typeInfo.arrayableInfo.arrayElement}(<@compound_get_fiel
 ${I}endBitPosition = <@compound_get_field field/>.initializeOffsets(zserioContext.${field.getterName}(), endBitPosition);
         </#if>
     <#elseif field.array??>
-${I}endBitPosition = <@compound_get_field field/>.initializeOffsets<@array_field_packed_suffix field, packed/>(endBitPosition);
+${I}endBitPosition = <@array_wrapper_access field, indent + 2/>.initializeOffsets<@array_field_packed_suffix field, packed/>(endBitPosition);
     <#elseif field.bitSize??>
 ${I}endBitPosition += ${field.bitSize.value};
     <#elseif field.runtimeFunction??>
diff --git a/compiler/extensions/python/freemarker/CompoundField.inc.ftl b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
index e23c479..f3c889d 100644
--- a/compiler/extensions/python/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/python/freemarker/CompoundField.inc.ftl
@@ -95,7 +95,7 @@ ${I}end_bitposition += ${field.bitSize.value}
         <#elseif field.bitSize.runtimeFunction??>
 ${I}end_bitposition += zserio.bitsizeof.bitsizeof_${field.bitSize.runtimeFunction.suffix}(self.<@field_member_name field/>)
         <#elseif field.array??>
-${I}end_bitposition += self.<@field_member_name field/>.bitsizeof<@array_field_packed_suffix field, packed/>(end_bitposition)
+${I}end_bitposition += <@array_field_access field/>.bitsizeof<@array_field_packed_suffix field, packed/>(end_bitposition)
         <#else>
 ${I}end_bitposition += self.<@field_member_name field/>.bitsizeof(end_bitposition)
         </#if>
@@ -159,7 +159,7 @@ ${I}end_bitposition += ${field.bitSize.value}
         <#elseif field.bitSize.runtimeFunction??>
 ${I}end_bitposition += zserio.bitsizeof.bitsizeof_${field.bitSize.runtimeFunction.suffix}(self.<@field_member_name field/>)
         <#elseif field.array??>
-${I}end_bitposition = self.<@field_member_name field/>.initialize_offsets<@array_field_packed_suffix field, packed/>(end_bitposition)
+${I}end_bitposition = <@array_field_access field/>.initialize_offsets<@array_field_packed_suffix field, packed/>(end_bitposition)
         <#else>
 ${I}end_bitposition = self.<@field_member_name field/>.initialize_offsets(end_bitposition)
         </#if>
@@ -253,6 +253,16 @@ ${I}self.<@field_member_name field/> = ${field.typeInfo.typeFullName}.from_reade
             <@field_argument_name field/><@array_field_keyword_parameters field/>)<#t>
 </#macro>
 
+<#macro array_field_access field>
+    <#if field.array.elementTypeInfo.isDynamicBitField>
+        <#-- bit size of the elements might have been changed since the array has been set -->
+        zserio.array.Array(<@array_field_traits_parameter field/>, <#t>
+                self.<@field_member_name field/>.raw_array<@array_field_keyword_parameters field/>)<#t>
+    <#else>
+        self.<@field_member_name field/><#t>
+    </#if>
+</#macro>
+
 <#macro compound_field_constructor_parameters compound>
     <#list compound.instantiatedParameters as instantiatedParameter>
         ${instantiatedParameter.expression}<#if instantiatedParameter_has_next>, </#if><#t>
@@ -317,7 +327,7 @@ ${I}self.<@field_member_name field/>.write_packed(zserio_context.${field.propert
         <#if field.runtimeFunction??>
 ${I}zserio_writer.write_${field.runtimeFunction.suffix}(self.<@field_member_name field/><#if field.runtimeFunction.arg??>, ${field.runtimeFunction.arg}</#if>)
         <#elseif field.array??>
-${I}self.<@field_member_name field/>.write<@array_field_packed_suffix field, packed/>(zserio_writer)
+${I}<@array_field_access field/>.write<@array_field_packed_suffix field, packed/>(zserio_writer)
         <#else>
 ${I}self.<@field_member_name field/>.write(zserio_writer)
         </#if>
-- 
2.43.0


From adb69ec0634df02633992da70fbfaecc0b9f9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 14/38] fix: C++ source amalgamation does not depend on earlier
 runs in the same JVM

The list of directories which have already got their amalgamated source was
static, so a second run in one JVM (e.g. two Ant tasks) appended to the output
of the first one.
---
 .../extension/common/FreeMarkerUtil.java       | 18 ++----------------
 .../extension/cpp/CppDefaultEmitter.java       |  6 +++---
 2 files changed, 5 insertions(+), 19 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
index a5c45ec..89b2e06 100644
--- a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
+++ b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
@@ -11,9 +11,7 @@ import java.io.OutputStreamWriter;
 import java.io.Writer;
 import java.nio.charset.StandardCharsets;
 import java.util.ArrayList;
-import java.util.HashSet;
 import java.util.List;
-import java.util.Set;
 
 import freemarker.template.Configuration;
 import freemarker.template.Template;
@@ -83,27 +81,16 @@ public final class FreeMarkerUtil
      * @param templateName The template name with the path relatively to "/FREEMARKER_LOCATION" directory.
      * @param templateDataModel The template data model to apply.
      * @param outputFile The output to be generated.
-     * @param amalgamate True if the generated output will be amalgamated to the output file.
+     * @param append True if the generated output will be appended to the already generated output file.
      * @param classForTemplateLoading The class which is used to get class loader for templates.
      *
      * @throws ZserioExtensionException In case of any template error.
      */
     public static void processTemplate(String templateName, Object templateDataModel, File outputFile,
-            Class<?> classForTemplateLoading, boolean amalgamate) throws ZserioExtensionException
+            Class<?> classForTemplateLoading, boolean append) throws ZserioExtensionException
     {
         FileUtil.createOutputDirectory(outputFile);
 
-        boolean append = false;
-        if (amalgamate)
-        {
-            final String outputDirName = outputFile.getParent();
-
-            if (amalgamatedDirectories.contains(outputDirName))
-                append = true;
-            else
-                amalgamatedDirectories.add(outputDirName);
-        }
-
         try (final FileOutputStream fileOutputStream = new FileOutputStream(outputFile, append);
                 final OutputStreamWriter outputStreamWriter = new OutputStreamWriter(fileOutputStream, "UTF-8");
                 final BufferedWriter bufferedWriter = new BufferedWriter(outputStreamWriter);)
@@ -173,7 +160,6 @@ public final class FreeMarkerUtil
     }
 
     private static volatile Configuration freeMarkerConfig;
-    private static Set<String> amalgamatedDirectories = new HashSet<String>();
 
     private static final String FREEMARKER_LOCATION = "freemarker/";
 }
diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
index 131103b..ebb5e05 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
@@ -105,7 +105,7 @@ abstract class CppDefaultEmitter extends DefaultTreeWalker
                 if (fileInfo) // not skipped
                 {
                     FreeMarkerUtil.processTemplate(CPP_TEMPLATE_LOCATION + templateName, templateData,
-                            outputFile, CppDefaultEmitter.class, amalgamate);
+                            outputFile, CppDefaultEmitter.class, true);
                 }
                 return;
             }
@@ -116,8 +116,8 @@ abstract class CppDefaultEmitter extends DefaultTreeWalker
                 !outputFileManager.checkTimestamps(outputFile) || !checkGeneratorDescription(outputFile);
         if (generate)
         {
-            FreeMarkerUtil.processTemplate(CPP_TEMPLATE_LOCATION + templateName, templateData, outputFile,
-                    CppDefaultEmitter.class, amalgamate);
+            FreeMarkerUtil.processTemplate(
+                    CPP_TEMPLATE_LOCATION + templateName, templateData, outputFile, CppDefaultEmitter.class);
         }
 
         outputFileManager.registerOutputFile(outputFile, generate);
-- 
2.43.0


From 92b47d6307c07ba9750df2106dc362b579b6d819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 15/38] fix: interrupted compiler run does not leave incomplete
 files which look up to date

Output files were written in place and amalgamated C++ sources were written
part by part. When a run was killed or failed in the middle, the next run
considered the incomplete file to be up to date and skipped it.
---
 .../src/zserio/extension/common/FileUtil.java | 58 +++++++++++++++++++
 .../extension/common/FreeMarkerUtil.java      | 35 +----------
 .../extension/common/OutputFileManager.java   | 34 +++++++++++
 .../extension/cpp/CppDefaultEmitter.java      | 17 +++++-
 .../zserio/extension/cpp/CppExtension.java    |  1 +
 5 files changed, 109 insertions(+), 36 deletions(-)

diff --git a/compiler/core/src/zserio/extension/common/FileUtil.java b/compiler/core/src/zserio/extension/common/FileUtil.java
index 27882eb..82bec64 100644
--- a/compiler/core/src/zserio/extension/common/FileUtil.java
+++ b/compiler/core/src/zserio/extension/common/FileUtil.java
@@ -1,8 +1,15 @@
 package zserio.extension.common;
 
+import java.io.BufferedWriter;
 import java.io.File;
+import java.io.FileOutputStream;
 import java.io.IOException;
+import java.io.OutputStreamWriter;
 import java.io.PrintWriter;
+import java.io.Writer;
+import java.nio.charset.StandardCharsets;
+import java.nio.file.Files;
+import java.nio.file.StandardCopyOption;
 
 /**
  * File utilities for Zserio extensions.
@@ -52,4 +59,55 @@ public final class FileUtil
             throw new ZserioExtensionException(exception.getMessage());
         }
     }
+
+    /**
+     * Writer of the content of an output file.
+     */
+    interface ContentWriter
+    {
+        /**
+         * Writes the content.
+         *
+         * @param writer Writer to use.
+         *
+         * @throws IOException In case of any write error.
+         * @throws ZserioExtensionException In case of any other error.
+         */
+        void write(Writer writer) throws IOException, ZserioExtensionException;
+    }
+
+    /**
+     * Writes output file.
+     *
+     * The content is written to a temporary file first. So the output file either keeps its old content or gets
+     * the complete new one even if the writing fails or is interrupted. An incomplete output file would look up
+     * to date to the next run.
+     *
+     * @param outputFile Output file to write.
+     * @param contentWriter Writer of the content.
+     *
+     * @throws ZserioExtensionException Throws if the output file cannot be written.
+     */
+    static void writeOutputFile(File outputFile, ContentWriter contentWriter) throws ZserioExtensionException
+    {
+        final File temporaryFile = new File(outputFile.getPath() + ".tmp");
+        try
+        {
+            try (final Writer writer = new BufferedWriter(new OutputStreamWriter(
+                         new FileOutputStream(temporaryFile), StandardCharsets.UTF_8)))
+            {
+                contentWriter.write(writer);
+            }
+
+            Files.move(temporaryFile.toPath(), outputFile.toPath(), StandardCopyOption.REPLACE_EXISTING);
+        }
+        catch (IOException exception)
+        {
+            throw new ZserioExtensionException(exception.getMessage());
+        }
+        finally
+        {
+            temporaryFile.delete();
+        }
+    }
 }
diff --git a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
index 89b2e06..3c5dc8f 100644
--- a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
+++ b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
@@ -1,13 +1,10 @@
 package zserio.extension.common;
 
 import java.io.BufferedReader;
-import java.io.BufferedWriter;
 import java.io.File;
-import java.io.FileOutputStream;
 import java.io.IOException;
 import java.io.InputStream;
 import java.io.InputStreamReader;
-import java.io.OutputStreamWriter;
 import java.io.Writer;
 import java.nio.charset.StandardCharsets;
 import java.util.ArrayList;
@@ -71,39 +68,11 @@ public final class FreeMarkerUtil
      */
     public static void processTemplate(String templateName, Object templateDataModel, File outputFile,
             Class<?> classForTemplateLoading) throws ZserioExtensionException
-    {
-        processTemplate(templateName, templateDataModel, outputFile, classForTemplateLoading, false);
-    }
-
-    /**
-     * Processes FreeMarker template with the provided data model and generates output.
-     *
-     * @param templateName The template name with the path relatively to "/FREEMARKER_LOCATION" directory.
-     * @param templateDataModel The template data model to apply.
-     * @param outputFile The output to be generated.
-     * @param append True if the generated output will be appended to the already generated output file.
-     * @param classForTemplateLoading The class which is used to get class loader for templates.
-     *
-     * @throws ZserioExtensionException In case of any template error.
-     */
-    public static void processTemplate(String templateName, Object templateDataModel, File outputFile,
-            Class<?> classForTemplateLoading, boolean append) throws ZserioExtensionException
     {
         FileUtil.createOutputDirectory(outputFile);
 
-        try (final FileOutputStream fileOutputStream = new FileOutputStream(outputFile, append);
-                final OutputStreamWriter outputStreamWriter = new OutputStreamWriter(fileOutputStream, "UTF-8");
-                final BufferedWriter bufferedWriter = new BufferedWriter(outputStreamWriter);)
-        {
-
-            if (append)
-                bufferedWriter.newLine();
-            processTemplate(templateName, templateDataModel, bufferedWriter, classForTemplateLoading);
-        }
-        catch (IOException exception)
-        {
-            throw new ZserioExtensionException(exception.getMessage());
-        }
+        FileUtil.writeOutputFile(outputFile,
+                writer -> processTemplate(templateName, templateDataModel, writer, classForTemplateLoading));
     }
 
     /**
diff --git a/compiler/core/src/zserio/extension/common/OutputFileManager.java b/compiler/core/src/zserio/extension/common/OutputFileManager.java
index 431c035..3c611b3 100644
--- a/compiler/core/src/zserio/extension/common/OutputFileManager.java
+++ b/compiler/core/src/zserio/extension/common/OutputFileManager.java
@@ -1,7 +1,9 @@
 package zserio.extension.common;
 
 import java.io.File;
+import java.io.StringWriter;
 import java.util.HashMap;
+import java.util.LinkedHashMap;
 import java.util.Map;
 
 import zserio.tools.ExtensionParameters;
@@ -109,7 +111,39 @@ public final class OutputFileManager
         return outputFiles.get(outputFile);
     }
 
+    /**
+     * Gets writer which collects all parts of an amalgamated output file.
+     *
+     * @param outputFile Amalgamated output file.
+     *
+     * @return Writer to which to append next part of the output file.
+     */
+    public StringWriter getAmalgamatedFileWriter(File outputFile)
+    {
+        return amalgamatedFiles.computeIfAbsent(outputFile, file -> new StringWriter());
+    }
+
+    /**
+     * Writes all amalgamated output files.
+     *
+     * Amalgamated output file must not be written before all its parts are available, otherwise an interrupted run
+     * would leave an incomplete file which looks up to date.
+     *
+     * @throws ZserioExtensionException if any amalgamated output file cannot be written.
+     */
+    public void writeAmalgamatedFiles() throws ZserioExtensionException
+    {
+        for (Map.Entry<File, StringWriter> entry : amalgamatedFiles.entrySet())
+        {
+            FileUtil.createOutputDirectory(entry.getKey());
+            FileUtil.writeOutputFile(
+                    entry.getKey(), writer -> writer.append(entry.getValue().getBuffer()));
+        }
+        amalgamatedFiles.clear();
+    }
+
     private final long lastModifiedSourceTime; // last modified time of Zserio sources and resources (e.g. jar)
     private final boolean ignoreTimestamps;
     private final Map<File, Boolean> outputFiles = new HashMap<File, Boolean>();
+    private final Map<File, StringWriter> amalgamatedFiles = new LinkedHashMap<File, StringWriter>();
 }
diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
index ebb5e05..bb0e2dc 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppDefaultEmitter.java
@@ -2,6 +2,7 @@ package zserio.extension.cpp;
 
 import java.io.File;
 import java.io.IOException;
+import java.io.StringWriter;
 import java.nio.file.Files;
 import java.util.Arrays;
 import java.util.Locale;
@@ -104,8 +105,10 @@ abstract class CppDefaultEmitter extends DefaultTreeWalker
             {
                 if (fileInfo) // not skipped
                 {
+                    final StringWriter amalgamWriter = outputFileManager.getAmalgamatedFileWriter(outputFile);
+                    amalgamWriter.append(System.lineSeparator());
                     FreeMarkerUtil.processTemplate(CPP_TEMPLATE_LOCATION + templateName, templateData,
-                            outputFile, CppDefaultEmitter.class, true);
+                            amalgamWriter, CppDefaultEmitter.class);
                 }
                 return;
             }
@@ -116,8 +119,16 @@ abstract class CppDefaultEmitter extends DefaultTreeWalker
                 !outputFileManager.checkTimestamps(outputFile) || !checkGeneratorDescription(outputFile);
         if (generate)
         {
-            FreeMarkerUtil.processTemplate(
-                    CPP_TEMPLATE_LOCATION + templateName, templateData, outputFile, CppDefaultEmitter.class);
+            if (amalgamate)
+            {
+                FreeMarkerUtil.processTemplate(CPP_TEMPLATE_LOCATION + templateName, templateData,
+                        outputFileManager.getAmalgamatedFileWriter(outputFile), CppDefaultEmitter.class);
+            }
+            else
+            {
+                FreeMarkerUtil.processTemplate(
+                        CPP_TEMPLATE_LOCATION + templateName, templateData, outputFile, CppDefaultEmitter.class);
+            }
         }
 
         outputFileManager.registerOutputFile(outputFile, generate);
diff --git a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExtension.java b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExtension.java
index e9f9854..fb989f2 100644
--- a/compiler/extensions/cpp/src/zserio/extension/cpp/CppExtension.java
+++ b/compiler/extensions/cpp/src/zserio/extension/cpp/CppExtension.java
@@ -91,6 +91,7 @@ public final class CppExtension implements Extension
         // emit C++ code
         for (CppDefaultEmitter emitter : emitters)
             rootNode.walk(emitter);
+        outputFileManager.writeAmalgamatedFiles();
 
         outputFileManager.printReport();
     }
-- 
2.43.0


From 79cb6457461f08514ac7ca3822bf1bf129cde169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 16/38] fix: documentation generator reports failed writes of
 package pages

---
 .../extensions/doc/src/zserio/extension/doc/PackageEmitter.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compiler/extensions/doc/src/zserio/extension/doc/PackageEmitter.java b/compiler/extensions/doc/src/zserio/extension/doc/PackageEmitter.java
index 51042fb..336eada 100644
--- a/compiler/extensions/doc/src/zserio/extension/doc/PackageEmitter.java
+++ b/compiler/extensions/doc/src/zserio/extension/doc/PackageEmitter.java
@@ -83,6 +83,8 @@ final class PackageEmitter extends DefaultTreeWalker
         final EndPackageTemplateData templateData = new EndPackageTemplateData(context, pkg);
         DocFreeMarkerUtil.processTemplate("end_package.html.ftl", templateData, writer);
         writer.close();
+        if (writer.checkError())
+            throw new ZserioExtensionException("Failed to write '" + getPackageHtmlLink(pkg, htmlPackagesDirectory) + "'!");
     }
 
     @Override
-- 
2.43.0


From 826951ab288bef6b734461c78ea4aff5f2060c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 17/38] fix: generated sources do not depend on the default
 locale

FreeMarker used the default locale of the JVM. With Turkish locale for instance, include guards and other names
changed by upper_case or lower_case contained characters which are not allowed in identifiers.
---
 compiler/core/src/zserio/extension/common/FreeMarkerUtil.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
index 3c5dc8f..91acf9b 100644
--- a/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
+++ b/compiler/core/src/zserio/extension/common/FreeMarkerUtil.java
@@ -9,6 +9,7 @@ import java.io.Writer;
 import java.nio.charset.StandardCharsets;
 import java.util.ArrayList;
 import java.util.List;
+import java.util.Locale;
 
 import freemarker.template.Configuration;
 import freemarker.template.Template;
@@ -37,6 +38,8 @@ public final class FreeMarkerUtil
             final Configuration newFreeMarkerConfig = new Configuration(Configuration.VERSION_2_3_28);
             newFreeMarkerConfig.setClassForTemplateLoading(classForTemplateLoading, '/' + FREEMARKER_LOCATION);
             newFreeMarkerConfig.setOutputEncoding("UTF-8");
+            // generated output must not depend on default locale of the JVM
+            newFreeMarkerConfig.setLocale(Locale.ENGLISH);
 
             freeMarkerConfig = newFreeMarkerConfig;
         }
-- 
2.43.0


From b5859126724ef1d9a5138b62d3275a6108f8ca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 18/38] fix: roll back the transaction when a SQL operation
 started by generated code fails

---
 .../cpp/freemarker/SqlDatabase.cpp.ftl        | 57 ++++++++++-----
 .../cpp/freemarker/SqlTable.cpp.ftl           | 53 ++++++++------
 .../cpp/runtime/src/zserio/SqliteConnection.h | 18 +++++
 .../java/freemarker/SqlDatabase.java.ftl      | 71 +++++++++++++++----
 .../java/freemarker/SqlTable.java.ftl         | 46 ++++++++++--
 .../python/freemarker/SqlDatabase.py.ftl      | 30 +++++---
 .../python/freemarker/SqlTable.py.ftl         | 15 ++--
 7 files changed, 215 insertions(+), 75 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl
index 918096c..b31e6af 100644
--- a/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlDatabase.cpp.ftl
@@ -118,36 +118,50 @@ ${field.typeInfo.typeFullName}& ${name}::${field.getterName}() noexcept
 void ${name}::createSchema()
 {
     const bool wasTransactionStarted = m_db.startTransaction();
-
+    try
+    {
     <#list fields as field>
-    <@sql_field_member_name field/>->createTable();
+        <@sql_field_member_name field/>->createTable();
     </#list>
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
 }
 
 void ${name}::createSchema(const <@set_type_name types.string.name/>&<#if hasWithoutRowIdTable> withoutRowIdTableNamesBlackList</#if>)
 {
     <#if hasWithoutRowIdTable>
     const bool wasTransactionStarted = m_db.startTransaction();
-
+    try
+    {
         <#list fields as field>
             <#if field.isWithoutRowIdTable>
-    if (withoutRowIdTableNamesBlackList.find(::zserio::stringViewToString(
-            <@sql_db_table_name_getter field/>, get_allocator_ref())) != withoutRowIdTableNamesBlackList.end())
-    {
-        <@sql_field_member_name field/>->createOrdinaryRowIdTable();
-    }
-    else
-    {
-        <@sql_field_member_name field/>->createTable();
-    }
+        if (withoutRowIdTableNamesBlackList.find(::zserio::stringViewToString(
+                <@sql_db_table_name_getter field/>, get_allocator_ref())) != withoutRowIdTableNamesBlackList.end())
+        {
+            <@sql_field_member_name field/>->createOrdinaryRowIdTable();
+        }
+        else
+        {
+            <@sql_field_member_name field/>->createTable();
+        }
             <#else>
-    <@sql_field_member_name field/>->createTable();
+        <@sql_field_member_name field/>->createTable();
             </#if>
         </#list>
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
     <#else>
     createSchema();
     </#if>
@@ -156,12 +170,19 @@ void ${name}::createSchema(const <@set_type_name types.string.name/>&<#if hasWit
 void ${name}::deleteSchema()
 {
     const bool wasTransactionStarted = m_db.startTransaction();
-
+    try
+    {
     <#list fields as field>
-    <@sql_field_member_name field/>->deleteTable();
+        <@sql_field_member_name field/>->deleteTable();
     </#list>
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
 }
 </#if>
 <#if withValidationCode>
diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 218bc7e..2ae1811 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -265,34 +265,43 @@ void ${name}::write(<#if needsParameterProvider>IParameterProvider& parameterPro
 
     // write rows
     const bool wasTransactionStarted = m_db.startTransaction();
-    ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(m_db.prepareStatement(sqlQuery));
-
-    for (Row& row : rows)
+    try
     {
-        writeRow(<#if needsParameterProvider>parameterProvider, </#if>row, columnsMapping, *statement);
-        int result = sqlite3_step(statement.get());
-        if (result != SQLITE_DONE)
-        {
-            throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
-                    ::zserio::SqliteErrorCode(result);
-        }
+        ::std::unique_ptr<sqlite3_stmt, ::zserio::SqliteFinalizer> statement(
+                m_db.prepareStatement(sqlQuery));
 
-        result = sqlite3_clear_bindings(statement.get());
-        if (result != SQLITE_OK)
+        for (Row& row : rows)
         {
-            throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
-                    ::zserio::SqliteErrorCode(result);
-        }
+            writeRow(<#if needsParameterProvider>parameterProvider, </#if>row, columnsMapping, *statement);
+            int result = sqlite3_step(statement.get());
+            if (result != SQLITE_DONE)
+            {
+                throw ::zserio::SqliteException("Write: sqlite3_step() failed: ") <<
+                        ::zserio::SqliteErrorCode(result);
+            }
 
-        result = sqlite3_reset(statement.get());
-        if (result != SQLITE_OK)
-        {
-            throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
-                    ::zserio::SqliteErrorCode(result);
+            result = sqlite3_clear_bindings(statement.get());
+            if (result != SQLITE_OK)
+            {
+                throw ::zserio::SqliteException("Write: sqlite3_clear_bindings() failed: ") <<
+                        ::zserio::SqliteErrorCode(result);
+            }
+
+            result = sqlite3_reset(statement.get());
+            if (result != SQLITE_OK)
+            {
+                throw ::zserio::SqliteException("Write: sqlite3_reset() failed: ") <<
+                        ::zserio::SqliteErrorCode(result);
+            }
         }
-    }
 
-    m_db.endTransaction(wasTransactionStarted);
+        m_db.endTransaction(wasTransactionStarted);
+    }
+    catch (...)
+    {
+        m_db.rollbackTransaction(wasTransactionStarted);
+        throw;
+    }
 }
 
 void ${name}::update(<#if needsParameterProvider>IParameterProvider& parameterProvider, </#if>Row& row, <#rt>
diff --git a/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h b/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h
index c8f3a8d..9d9164c 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/SqliteConnection.h
@@ -121,6 +121,16 @@ public:
      */
     void endTransaction(bool wasTransactionStarted);
 
+    /**
+     * Rolls back the current transaction after a failure.
+     *
+     * The method never throws since it is intended to be called during handling of the original failure. Note that
+     * SQLite might have already rolled the transaction back itself.
+     *
+     * \param wasTransactionStarted When false, the call does actually nothing.
+     */
+    void rollbackTransaction(bool wasTransactionStarted) noexcept;
+
 private:
     sqlite3* m_connection;
     ConnectionType m_connectionType;
@@ -203,6 +213,14 @@ inline void SqliteConnection::endTransaction(bool wasTransactionStarted)
     }
 }
 
+inline void SqliteConnection::rollbackTransaction(bool wasTransactionStarted) noexcept
+{
+    if (wasTransactionStarted && sqlite3_get_autocommit(m_connection) == 0)
+    {
+        (void)sqlite3_exec(m_connection, "ROLLBACK;", nullptr, nullptr, nullptr);
+    }
+}
+
 } // namespace zserio
 
 #endif // ZSERIO_SQL_CONNECTION_H_INC
diff --git a/compiler/extensions/java/freemarker/SqlDatabase.java.ftl b/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
index 2f1acec..fa6c9ad 100644
--- a/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlDatabase.java.ftl
@@ -207,12 +207,19 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
     public void createSchema() throws java.sql.SQLException
     {
         final boolean wasTransactionStarted = startTransaction();
-
+        try
+        {
         <#list fields as field>
-        this.<@sql_field_member_name field/>.createTable();
+            this.<@sql_field_member_name field/>.createTable();
         </#list>
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     }
 
     <#assign hasWithoutRowIdTable=false/>
@@ -228,19 +235,26 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
     {
     <#if hasWithoutRowIdTable>
         final boolean wasTransactionStarted = startTransaction();
-
+        try
+        {
         <#list fields as field>
             <#if field.isWithoutRowIdTable>
-        if (withoutRowIdTableNamesBlackList.contains(${field.name}_TABLE_NAME))
-            this.<@sql_field_member_name field/>.createOrdinaryRowIdTable();
-        else
-            this.<@sql_field_member_name field/>.createTable();
+            if (withoutRowIdTableNamesBlackList.contains(${field.name}_TABLE_NAME))
+                this.<@sql_field_member_name field/>.createOrdinaryRowIdTable();
+            else
+                this.<@sql_field_member_name field/>.createTable();
             <#else>
-        this.<@sql_field_member_name field/>.createTable();
+            this.<@sql_field_member_name field/>.createTable();
             </#if>
         </#list>
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     <#else>
         createSchema();
     </#if>
@@ -250,12 +264,19 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
     public void deleteSchema() throws java.sql.SQLException
     {
         final boolean wasTransactionStarted = startTransaction();
-
+        try
+        {
     <#list fields as field>
-        this.<@sql_field_member_name field/>.deleteTable();
+            this.<@sql_field_member_name field/>.deleteTable();
     </#list>
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     }
 </#if>
 <#if withValidationCode>
@@ -374,6 +395,30 @@ public final class ${name} implements zserio.runtime.SqlDatabase<#if !withWriter
             connection.setAutoCommit(true);
         }
     }
+
+    private void rollbackTransaction(boolean wasTransactionStarted, java.lang.Throwable cause)
+    {
+        if (wasTransactionStarted)
+        {
+            try
+            {
+                connection.rollback();
+            }
+            catch (java.sql.SQLException exception)
+            {
+                cause.addSuppressed(exception);
+            }
+
+            try
+            {
+                connection.setAutoCommit(true);
+            }
+            catch (java.sql.SQLException exception)
+            {
+                cause.addSuppressed(exception);
+            }
+        }
+    }
 </#if>
 
     private static final java.lang.String DATABASE_NAME = "${name}";
diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index 8be2561..bc401de 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -306,17 +306,25 @@ public class ${name}
 
         // write rows
         final boolean wasTransactionStarted = startTransaction();
-        try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
+        try
         {
-            for (${rowName} row : rows)
+            try (final java.sql.PreparedStatement statement = connection.prepareStatement(sqlQuery.toString()))
             {
-                writeRow(row, columns, statement);
-                statement.addBatch();
+                for (${rowName} row : rows)
+                {
+                    writeRow(row, columns, statement);
+                    statement.addBatch();
+                }
+                statement.executeBatch();
             }
-            statement.executeBatch();
-        }
 
-        endTransaction(wasTransactionStarted);
+            endTransaction(wasTransactionStarted);
+        }
+        catch (java.lang.Throwable exception)
+        {
+            rollbackTransaction(wasTransactionStarted, exception);
+            throw exception;
+        }
     }
 
     <#if withCodeComments>
@@ -565,6 +573,30 @@ public class ${name}
         }
     }
 
+    private void rollbackTransaction(boolean wasTransactionStarted, java.lang.Throwable cause)
+    {
+        if (wasTransactionStarted)
+        {
+            try
+            {
+                connection.rollback();
+            }
+            catch (java.sql.SQLException exception)
+            {
+                cause.addSuppressed(exception);
+            }
+
+            try
+            {
+                connection.setAutoCommit(true);
+            }
+            catch (java.sql.SQLException exception)
+            {
+                cause.addSuppressed(exception);
+            }
+        }
+    }
+
     private java.lang.StringBuilder getCreateTableQuery() throws java.sql.SQLException
     {
         final java.lang.StringBuilder sqlQuery = new java.lang.StringBuilder("CREATE <#if virtualTableUsing??>VIRTUAL </#if>TABLE ");
diff --git a/compiler/extensions/python/freemarker/SqlDatabase.py.ftl b/compiler/extensions/python/freemarker/SqlDatabase.py.ftl
index ee2dd20..f1ab5b3 100644
--- a/compiler/extensions/python/freemarker/SqlDatabase.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlDatabase.py.ftl
@@ -175,19 +175,24 @@ class ${name}:
             without_rowid_table_names_blacklist = []
     </#if>
 
+        try:
     <#list fields as field>
         <#if field.isWithoutRowIdTable>
-        if self.<@table_name_constant field/> in without_rowid_table_names_blacklist:
-            self.<@field_member_name field/>.create_ordinary_rowid_table()
-        else:
-            self.<@field_member_name field/>.create_table()
+            if self.<@table_name_constant field/> in without_rowid_table_names_blacklist:
+                self.<@field_member_name field/>.create_ordinary_rowid_table()
+            else:
+                self.<@field_member_name field/>.create_table()
         <#else>
-        self.<@field_member_name field/>.create_table()
+            self.<@field_member_name field/>.create_table()
         </#if>
     </#list>
 
-        if has_autocommit:
-            cursor.execute("COMMIT")
+            if has_autocommit:
+                cursor.execute("COMMIT")
+        except BaseException:
+            if has_autocommit and not self._connection.getautocommit():
+                cursor.execute("ROLLBACK")
+            raise
 
     def delete_schema(self) -> None:
     <#if withCodeComments>
@@ -201,12 +206,17 @@ class ${name}:
             cursor = self._connection.cursor()
             cursor.execute("BEGIN")
 
+        try:
     <#list fields as field>
-        self.<@field_member_name field/>.delete_table()
+            self.<@field_member_name field/>.delete_table()
     </#list>
 
-        if has_autocommit:
-            cursor.execute("COMMIT")
+            if has_autocommit:
+                cursor.execute("COMMIT")
+        except BaseException:
+            if has_autocommit and not self._connection.getautocommit():
+                cursor.execute("ROLLBACK")
+            raise
 </#if>
 
     def _init_tables(self, table_name_to_attached_db_name_map: typing.Dict[str, str]) -> None:
diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index f8faaa2..d23596a 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -306,11 +306,16 @@ class ${name}:
         if has_autocommit:
             cursor.execute("BEGIN")
 
-        for row in rows:
-            cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
-
-        if has_autocommit:
-            cursor.execute("COMMIT")
+        try:
+            for row in rows:
+                cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+
+            if has_autocommit:
+                cursor.execute("COMMIT")
+        except BaseException:
+            if has_autocommit and not self._connection.getautocommit():
+                cursor.execute("ROLLBACK")
+            raise
 
     def update(self, row: '${name}.${rowAnnotationName}', where_condition: str) -> None:
         """
-- 
2.43.0


From 04375332ca385706c488f8cb2b8ff8abed617c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 19/38] fix: C++ SQL reader read blobs of a column subset from
 the wrong column

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 2ae1811..0b854df 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -200,8 +200,8 @@ ${name}::Row ${name}::Reader::next()
         if (sqlite3_column_type(m_stmt.get(), index) != SQLITE_NULL)
         {
         <#if field.sqlTypeData.isBlob>
-            const void* blobData = sqlite3_column_blob(m_stmt.get(), ${field?index});
-            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), ${field?index});
+            const void* blobData = sqlite3_column_blob(m_stmt.get(), index);
+            const int blobDataLength = sqlite3_column_bytes(m_stmt.get(), index);
             ::zserio::BitStreamReader reader(static_cast<const uint8_t*>(blobData),
                     static_cast<size_t>(blobDataLength));
             <@read_blob field, "m_parameterProvider"/>
-- 
2.43.0


From 5945323bc129bab780e3db84f308cc2c991b1ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 20/38] fix: C++ SQL tables cut texts with embedded NUL

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 0b854df..9de64e3 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -224,8 +224,10 @@ ${name}::Row ${name}::Reader::next()
             row.${field.setterName}(static_cast<${field.typeInfo.typeFullName}>(doubleValue));
         <#else>
             const unsigned char* textValue = sqlite3_column_text(m_stmt.get(), index);
+            const int textLength = sqlite3_column_bytes(m_stmt.get(), index);
             row.${field.setterName}(${field.typeInfo.typeFullName}(
-                    reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+                    reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength),
+                    get_allocator_ref()));
         </#if>
         }
         ++index;
@@ -696,8 +698,9 @@ bool ${name}::validateField${field.name?cap_first}(::zserio::IValidationObserver
     row.${field.setterName}(static_cast<${field.typeInfo.typeFullName}>(doubleValue));
                 <#else>
     const unsigned char* textValue = sqlite3_column_text(statement, ${field?index});
+    const int textLength = sqlite3_column_bytes(statement, ${field?index});
     row.${field.setterName}(${field.typeInfo.typeFullName}(
-            reinterpret_cast<const char*>(textValue), get_allocator_ref()));
+            reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength), get_allocator_ref()));
                 </#if>
 
     return true;
@@ -788,7 +791,8 @@ void ${name}::writeRow(<#if needsParameterProvider>IParameterProvider& parameter
             result = sqlite3_bind_double(&statement, index, static_cast<double>(realValue));
             <#else>
             const ${field.typeInfo.typeFullName}& stringValue = row.${field.getterName}();
-            result = sqlite3_bind_text(&statement, index, stringValue.c_str(), -1, SQLITE_TRANSIENT);
+            result = sqlite3_bind_text(&statement, index, stringValue.c_str(),
+                    static_cast<int>(stringValue.size()), SQLITE_TRANSIENT);
             </#if>
         }
         if (result != SQLITE_OK)
-- 
2.43.0


From 197bab0c557dd2fa61f9be7fb0d07b2d7049eaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 21/38] fix: C++ SQL tables stored empty blobs as NULL

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 9de64e3..3272da9 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -781,8 +781,11 @@ void ${name}::writeRow(<#if needsParameterProvider>IParameterProvider& parameter
             ${types.bitBuffer.name} bitBuffer(blob.bitSizeOf(), get_allocator_ref());
             ::zserio::BitStreamWriter writer(bitBuffer);
             blob.write(writer);
-            result = sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
-                    static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
+            <#-- note that null pointer passed to sqlite3_bind_blob would bind NULL value -->
+            result = (bitBuffer.getByteSize() == 0)
+                    ? sqlite3_bind_zeroblob(&statement, index, 0)
+                    : sqlite3_bind_blob(&statement, index, bitBuffer.getBuffer(),
+                              static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
             <#elseif field.sqlTypeData.isInteger>
             const int64_t intValue = static_cast<int64_t>(row.${field.getterName}()<#if field.typeInfo.isBitmask>.getValue()</#if>);
             result = sqlite3_bind_int64(&statement, index, intValue);
-- 
2.43.0


From 52ad1d1b091734f6d2658234c8a5a3fd86efe63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 22/38] fix: C++ SQL validation crashed on NULL in a text key

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index 3272da9..da8097f 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -732,7 +732,15 @@ bool ${name}::validateField${field.name?cap_first}(::zserio::IValidationObserver
     rowKeyValuesHolder.emplace_back("BLOB");
                     <#else>
     const unsigned char* strValue${field.name?cap_first} = sqlite3_column_text(statement, ${field?index});
-    rowKeyValuesHolder.emplace_back(reinterpret_cast<const char*>(strValue${field.name?cap_first}));
+    if (strValue${field.name?cap_first} != nullptr)
+    {
+        rowKeyValuesHolder.emplace_back(reinterpret_cast<const char*>(strValue${field.name?cap_first}),
+                static_cast<size_t>(sqlite3_column_bytes(statement, ${field?index})));
+    }
+    else
+    {
+        rowKeyValuesHolder.emplace_back("NULL");
+    }
                     </#if>
                 </#if>
             </#list>
-- 
2.43.0


From a4676ffa3d2ef03d19407faa2e00a8a9cb8a23a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 23/38] fix: C++ SQL validation ignored the observer's wish to
 stop after a type error

---
 compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
index da8097f..d12b838 100644
--- a/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
+++ b/compiler/extensions/cpp/freemarker/SqlTable.cpp.ftl
@@ -369,7 +369,7 @@ bool ${name}::validate(::zserio::IValidationObserver& validationObserver<#rt>
             ++numberOfValidatedRows;
 
         <#list fields as field>
-            if (!validateType${field.name?cap_first}(validationObserver, statement.get(), continueValidation))
+            if (!validateType${field.name?cap_first}(validationObserver, statement.get(), continueTableValidation))
             {
                 continue;
             }
-- 
2.43.0


From 39f45bed997c29788b460fb08d07e29bb5ba5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 24/38] fix: unsigned 64-bit SQL columns above the signed
 maximum in Java and Python

---
 .../java/freemarker/SqlTable.java.ftl         |  4 ++--
 .../python/freemarker/SqlTable.py.ftl         |  9 +++++++++
 .../python/SqlTableEmitterTemplateData.java   | 20 +++++++++++++++++++
 3 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/java/freemarker/SqlTable.java.ftl b/compiler/extensions/java/freemarker/SqlTable.java.ftl
index bc401de..cd8a58c 100644
--- a/compiler/extensions/java/freemarker/SqlTable.java.ftl
+++ b/compiler/extensions/java/freemarker/SqlTable.java.ftl
@@ -686,7 +686,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
     <#elseif field.typeInfo.isBitmask>
                 row.set${field.name?cap_first}(new ${field.typeInfo.typeFullName}(${valueVarName}));
     <#elseif field.requiresBigInt>
-                row.set${field.name?cap_first}(java.math.BigInteger.valueOf(${valueVarName}));
+                row.set${field.name?cap_first}(new java.math.BigInteger(java.lang.Long.toUnsignedString(${valueVarName})));
     <#else>
                 row.set${field.name?cap_first}(${valueVarName});
     </#if>
@@ -962,7 +962,7 @@ ${I}                (${parameter.typeInfo.typeFullName})(${parameter.expression}
             row.set${field.name?cap_first}(
                     new ${field.typeInfo.typeFullName}((${field.underlyingTypeInfo.typeFullName})value));
                 <#elseif field.requiresBigInt>
-            row.set${field.name?cap_first}(java.math.BigInteger.valueOf(value));
+            row.set${field.name?cap_first}(new java.math.BigInteger(java.lang.Long.toUnsignedString(value)));
                 <#elseif field.rangeCheckData.sqlRangeData??>
             row.set${field.name?cap_first}((${field.typeInfo.typeFullName})value);
                 <#else>
diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index d23596a..ee360fe 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -114,6 +114,9 @@ class ${name}:
             <#elseif field.typeInfo.isBitmask>
                 if ${field.snakeCaseName}_ is not None:
                     ${field.snakeCaseName}_ = ${field.typeInfo.typeFullName}.from_value(${field.snakeCaseName}_)
+            <#elseif field.isUnsigned64>
+                if ${field.snakeCaseName}_ is not None and ${field.snakeCaseName}_ < 0:
+                    ${field.snakeCaseName}_ += 1 << 64
             </#if>
                 i += 1
             else:
@@ -428,6 +431,12 @@ class ${name}:
                 row_in_list.append(${field.snakeCaseName}_.value)
             else:
                 row_in_list.append(${field.snakeCaseName}_)
+            <#elseif field.isUnsigned64>
+            <#-- SQLite knows only signed 64-bit integers -->
+            ${field.snakeCaseName}_ = row[${field?index}]
+            if ${field.snakeCaseName}_ is not None and ${field.snakeCaseName}_ >= 1 << 63:
+                ${field.snakeCaseName}_ -= 1 << 64
+            row_in_list.append(${field.snakeCaseName}_)
             <#else>
             row_in_list.append(row[${field?index}])
             </#if>
diff --git a/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java b/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
index 2beca15..f04962c 100644
--- a/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
+++ b/compiler/extensions/python/src/zserio/extension/python/SqlTableEmitterTemplateData.java
@@ -9,6 +9,7 @@ import zserio.ast.DynamicBitFieldInstantiation;
 import zserio.ast.Expression;
 import zserio.ast.Field;
 import zserio.ast.FixedSizeType;
+import zserio.ast.IntegerType;
 import zserio.ast.Parameter;
 import zserio.ast.ParameterizedTypeInstantiation;
 import zserio.ast.ParameterizedTypeInstantiation.InstantiatedParameter;
@@ -195,6 +196,8 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             final SqlNativeTypeMapper sqlNativeTypeMapper = new SqlNativeTypeMapper();
             sqlTypeData = new SqlTypeTemplateData(sqlNativeTypeMapper, field);
 
+            isUnsigned64 = isUnsigned64(fieldTypeInstantiation);
+
             docComments = DocCommentsDataCreator.createData(context, field);
         }
 
@@ -243,6 +246,11 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             return sqlTypeData;
         }
 
+        public boolean getIsUnsigned64()
+        {
+            return isUnsigned64;
+        }
+
         public DocCommentsTemplateData getDocComments()
         {
             return docComments;
@@ -323,6 +331,17 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
             private final String lambdaExpression;
         }
 
+        // values above the maximum of signed 64-bit integer are stored by SQLite as negative numbers
+        private static boolean isUnsigned64(TypeInstantiation typeInstantiation)
+        {
+            if (!(typeInstantiation.getBaseType() instanceof IntegerType))
+                return false;
+
+            final IntegerType integerType = (IntegerType)typeInstantiation.getBaseType();
+
+            return integerType.getUpperBound(typeInstantiation).bitLength() > Long.SIZE - 1;
+        }
+
         private static String createBitSize(TypeInstantiation typeInstantiation,
                 ExpressionFormatter pythonSqlIndirectExpressionFormatter) throws ZserioExtensionException
         {
@@ -352,6 +371,7 @@ public final class SqlTableEmitterTemplateData extends UserTypeTemplateData
         private final String sqlConstraint;
         private final String lambdaBitSize;
         private final SqlTypeTemplateData sqlTypeData;
+        private final boolean isUnsigned64;
         private final DocCommentsTemplateData docComments;
     }
 
-- 
2.43.0


From 8102bf2e33c489c6c3e2b4cc8046d31d112210b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:28 +0000
Subject: [PATCH 25/38] fix: Python SQL tables mixed up column subsets

---
 .../python/freemarker/SqlTable.py.ftl         | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/compiler/extensions/python/freemarker/SqlTable.py.ftl b/compiler/extensions/python/freemarker/SqlTable.py.ftl
index ee360fe..97cc73e 100644
--- a/compiler/extensions/python/freemarker/SqlTable.py.ftl
+++ b/compiler/extensions/python/freemarker/SqlTable.py.ftl
@@ -14,17 +14,6 @@ from enum import Enum, IntEnum
         <#break>
     </#if>
 </#list>
-<#assign hasEnumField = false/>
-<#assign hasBitmaskField = false/>
-<#list fields as field>
-    <#if field.typeInfo.isEnum>
-        <#assign hasEnumField = true/>
-    </#if>
-    <#if field.typeInfo.isBitmask>
-        <#assign hasBitmaskField = true/>
-    </#if>
-</#list>
-<#assign needsRowConversion = hasBlobField || hasEnumField || hasBitmaskField/>
 <#assign needsParameterProvider = explicitParameters?has_content/>
 <#if withWriterCode>
     <#assign hasNonVirtualField=false/>
@@ -65,7 +54,7 @@ class ${name}:
 
 </#if>
         def __init__(self, <#rt>
-                <#lt>rows: typing.Iterator[<#if needsRowConversion>typing.Tuple<#else>'${name}.${rowAnnotationName}'</#if>]<#rt>
+                <#lt>rows: typing.Iterator[typing.Tuple]<#rt>
                 <#lt><#if needsParameterProvider>, parameter_provider: '${name}.IParameterProvider'</#if>,
                 column_map: typing.List[bool]
                 ) -> None:
@@ -88,9 +77,8 @@ class ${name}:
 
         def __iter__(self) -> typing.Iterator['${name}.${rowAnnotationName}']:
             for row in self._rows:
-                yield <#if needsRowConversion>self._read_row(row)<#else>row</#if>
+                yield self._read_row(row)
 
-<#if needsRowConversion>
         def _read_row(self, row: typing.Tuple) -> '${name}.${rowAnnotationName}':
             i = 0
     <#list fields as field>
@@ -125,7 +113,6 @@ class ${name}:
     </#list>
             return (<#list fields as field>${field.snakeCaseName}_<#if field?index == 0 || field?has_next>, </#if></#list>)
 
-</#if>
 <#if needsParameterProvider>
     <#macro parameter_provider_method_name parameter>
         ${parameter.expression}<#t>
@@ -311,7 +298,7 @@ class ${name}:
 
         try:
             for row in rows:
-                cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+                cursor.execute(sql_query, self._write_row(row, column_map))
 
             if has_autocommit:
                 cursor.execute("COMMIT")
@@ -349,7 +336,7 @@ class ${name}:
         sql_query += where_condition
 
         cursor = self._connection.cursor()
-        cursor.execute(sql_query, <#if needsRowConversion>self._write_row(row, column_map)<#else>row</#if>)
+        cursor.execute(sql_query, self._write_row(row, column_map))
 </#if>
 
     def _create_column_mapping(self, columns: typing.List[str]) -> typing.List[bool]:
@@ -405,7 +392,6 @@ class ${name}:
     </#if>
 
         return sql_query
-    <#if needsRowConversion>
 
     @staticmethod
     def _write_row(row: '${name}.${rowAnnotationName}', column_map: typing.List[bool]) -> typing.List:
@@ -443,7 +429,6 @@ class ${name}:
 
         </#list>
         return row_in_list
-    </#if>
 </#if>
 
     class _ColumnFormat(Enum):
-- 
2.43.0


From 043e2bdeb7d1535e7315ef2ce140d5fe0322d977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:38 +0000
Subject: [PATCH 26/38] fix: JSON tokenizers lost or misreported a value which
 runs to the end of the input behind a chunk ending in white space

---
 compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h     | 1 +
 .../java/runtime/src/zserio/runtime/json/JsonTokenizer.java    | 3 +++
 compiler/extensions/python/runtime/src/zserio/json.py          | 1 +
 3 files changed, 5 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h b/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h
index 1913700..53bc1f7 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonTokenizer.h
@@ -228,6 +228,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(StringView(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            setToken(JsonToken::VALUE); // preceding whitespaces might have ended a previous chunk
             return false; // we are at the end of chunk => read more
         }
 
diff --git a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java
index 6fd3bb4..a5d15b5 100644
--- a/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java
+++ b/compiler/extensions/java/runtime/src/zserio/runtime/json/JsonTokenizer.java
@@ -157,7 +157,10 @@ class JsonTokenizer
         default:
             decoderResult = JsonDecoder.decodeValue(content, pos);
             if (pos + decoderResult.getNumReadChars() >= content.length())
+            {
+                setToken(JsonToken.VALUE, null); // preceding whitespaces might have ended a previous chunk
                 return false; // we are at the end of chunk => try to read more
+            }
 
             setTokenValue();
             break;
diff --git a/compiler/extensions/python/runtime/src/zserio/json.py b/compiler/extensions/python/runtime/src/zserio/json.py
index 78f94f4..01f5241 100644
--- a/compiler/extensions/python/runtime/src/zserio/json.py
+++ b/compiler/extensions/python/runtime/src/zserio/json.py
@@ -869,6 +869,7 @@ class JsonTokenizer:
         else:
             self._decoder_result = JsonDecoder.decode_value(self._content, self._pos)
             if self._pos + self._decoder_result.num_read_chars >= len(self._content):
+                self._set_token(JsonToken.VALUE, None)  # preceding whitespaces might have ended a previous chunk
                 return False  # we are at the end of chunk => try to read more
 
             self._set_token_value()
-- 
2.43.0


From f3acbfb5b57d307c57410f68e8370eaaf102c5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:41 +0000
Subject: [PATCH 27/38] fix: C++ JSON reader crashed on null where a number is
 expected

---
 .../cpp/runtime/src/zserio/CppRuntimeException.cpp    |  5 +++++
 .../cpp/runtime/src/zserio/CppRuntimeException.h      | 11 +++++++++++
 2 files changed, 16 insertions(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.cpp b/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.cpp
index acf6eeb..7d9cfea 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.cpp
@@ -48,6 +48,11 @@ CppRuntimeException& operator<<(CppRuntimeException& exception, const char* mess
     return exception;
 }
 
+CppRuntimeException& operator<<(CppRuntimeException& exception, std::nullptr_t)
+{
+    return exception << "null";
+}
+
 CppRuntimeException& operator<<(CppRuntimeException& exception, bool value)
 {
     return exception << (value ? "true" : "false");
diff --git a/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.h b/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.h
index c158f78..daf181e 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/CppRuntimeException.h
@@ -2,6 +2,7 @@
 #define ZSERIO_CPP_RUNTIME_EXCEPTION_H_INC
 
 #include <array>
+#include <cstddef>
 #include <exception>
 #include <string>
 #include <type_traits>
@@ -77,6 +78,16 @@ private:
  */
 CppRuntimeException& operator<<(CppRuntimeException& exception, const char* message);
 
+/**
+ * Appends a null value to the exception's description.
+ *
+ * \param exception Exception to modify.
+ * \param nullValue Null value to append.
+ *
+ * \return Reference to the exception to allow operator chaining.
+ */
+CppRuntimeException& operator<<(CppRuntimeException& exception, std::nullptr_t nullValue);
+
 /**
  * Appends a bool value to the exception's description.
  *
-- 
2.43.0


From c1ab522eed2f70782ae1367f2bf48062c6cb68e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:19 +0000
Subject: [PATCH 28/38] fix: C++ file helpers report a failure to write what
 the stream had buffered

---
 compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h | 1 +
 compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
index e77522e..50a4022 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
@@ -66,6 +66,7 @@ void toJsonFile(const T& object, const string<ALLOC>& fileName, uint8_t indent,
 
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
 
+    stream.close(); // what is still buffered is written here
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to write '") << fileName << "'!";
diff --git a/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp b/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
index 38e2aa1..0013324 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
+++ b/compiler/extensions/cpp/runtime/src/zserio/FileUtil.cpp
@@ -16,7 +16,9 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, const std
     }
 
     const size_t byteSize = (bitSize + 7) / 8;
-    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)))
+    (void)stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize));
+    stream.close(); // what is still buffered is written here
+    if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
-- 
2.43.0


From a82990fb5e347ed4fa1e0f712d221002bab712c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 29/38] fix: Java: do not check constraints of absent extended
 fields

---
 compiler/extensions/java/freemarker/CompoundField.inc.ftl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/java/freemarker/CompoundField.inc.ftl b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
index 71cdabb..18e531a 100644
--- a/compiler/extensions/java/freemarker/CompoundField.inc.ftl
+++ b/compiler/extensions/java/freemarker/CompoundField.inc.ftl
@@ -265,7 +265,8 @@ ${I}<@compound_get_field field/>.write(out);
 <#macro compound_check_constraint_field field compoundName indent>
     <#local I>${""?left_pad(indent * 4)}</#local>
     <#if field.constraint??>
-${I}if (<#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
+${I}if (<#if field.isExtended>${field.isPresentIndicatorName}() && </#if><#rt>
+        <#lt><#if field.optional??>${field.optional.isUsedIndicatorName}() && </#if>!(${field.constraint}))
 ${I}    throw new zserio.runtime.ConstraintError("Constraint violated at ${compoundName}.${field.name}!");
     </#if>
 </#macro>
-- 
2.43.0


From 6853e34add32132327b9054b94f23e01342c7eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 30/38] fix: report failed allocations in toJsonString instead
 of truncating the text

---
 compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
index 50a4022..7a9d969 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
@@ -50,6 +50,7 @@ string<ALLOC> toJsonString(const T& object, uint8_t indent, WALK_FILTER&& walkFi
 {
     auto stream = std::basic_ostringstream<char, std::char_traits<char>, RebindAlloc<ALLOC, char>>(
             string<ALLOC>(allocator));
+    stream.exceptions(std::ios_base::badbit); // otherwise a failed allocation would silently truncate the string
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
     return stream.str();
 }
-- 
2.43.0


From 87f5547806fc86240297665e50145b2419d58e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 31/38] fix: use the given allocator for the JSON writer of
 toJsonStream

---
 compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
index 7a9d969..e3c1787 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/DebugStringUtil.h
@@ -40,7 +40,7 @@ void toJsonStream(
             "DebugStringUtil.toJsonStream: "
             "Zserio object must have reflections enabled (see zserio option -withReflectionCode)!");
 
-    BasicJsonWriter<ALLOC> jsonWriter(stream, indent);
+    BasicJsonWriter<ALLOC> jsonWriter(stream, indent, allocator);
     BasicWalker<ALLOC> walker(jsonWriter, walkFilter);
     walker.walk(object.reflectable(allocator));
 }
-- 
2.43.0


From 5e4c14beb4bef8bb608eb4bd4280e0a49c50ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 32/38] fix: release memory of AnyHolder when constructing its
 value throws

---
 .../cpp/runtime/src/zserio/AnyHolder.h        | 53 ++++++++++---------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
index 723c423..f79404e 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/AnyHolder.h
@@ -165,16 +165,12 @@ public:
 
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
-        this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
-        return holder;
+        return createFrom(allocator, this->getHolder());
     }
 
     IHolder<ALLOC>* clone(NoInitT, const ALLOC& allocator) const override
     {
-        this_type* holder = create(allocator);
-        holder->setHolder(NoInit, this->getHolder());
-        return holder;
+        return createFrom(allocator, NoInit, this->getHolder());
     }
 
     IHolder<ALLOC>* clone(void*) const override
@@ -189,16 +185,12 @@ public:
 
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
-        this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
-        return holder;
+        return createFrom(allocator, std::move(this->getHolder()));
     }
 
     IHolder<ALLOC>* move(NoInitT, const ALLOC& allocator) override
     {
-        this_type* holder = create(allocator);
-        holder->setHolder(NoInit, std::move(this->getHolder()));
-        return holder;
+        return createFrom(allocator, NoInit, std::move(this->getHolder()));
     }
 
     IHolder<ALLOC>* move(void*) override
@@ -220,6 +212,23 @@ public:
         AllocTraits::destroy(typedAlloc, this);
         AllocTraits::deallocate(typedAlloc, this, 1);
     }
+
+private:
+    template <typename... ARGS>
+    static this_type* createFrom(const ALLOC& allocator, ARGS&&... args)
+    {
+        this_type* holder = create(allocator);
+        try
+        {
+            holder->setHolder(std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
+        return holder;
+    }
 };
 
 // Holder allocated in the in-place storage
@@ -349,9 +358,8 @@ public:
                             !std::is_same<typename std::decay<T>::type, ALLOC>::value,
                     int>::type = 0>
     explicit AnyHolder(T&& value, const ALLOC& allocator = ALLOC()) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator) // delegates, so that the destructor is called when set() throws
     {
-        m_untypedHolder.heap = nullptr;
         set(std::forward<T>(value));
     }
 
@@ -364,9 +372,8 @@ public:
             typename std::enable_if<!std::is_same<typename std::decay<T>::type, AnyHolder>::value, int>::type =
                     0>
     explicit AnyHolder(NoInitT, T&& value, const ALLOC& allocator = ALLOC()) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator) // delegates, so that the destructor is called when set() throws
     {
-        m_untypedHolder.heap = nullptr;
         set(NoInit, std::forward<T>(value));
     }
 
@@ -384,8 +391,7 @@ public:
      * \param other Any holder to copy.
      */
     AnyHolder(const AnyHolder& other) :
-            AllocatorHolder<ALLOC>(
-                    AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
+            AnyHolder(AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
     {
         copy(other);
     }
@@ -396,8 +402,7 @@ public:
      * \param other Any holder to copy.
      */
     AnyHolder(NoInitT, const AnyHolder& other) :
-            AllocatorHolder<ALLOC>(
-                    AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
+            AnyHolder(AllocTraits::select_on_container_copy_construction(other.get_allocator_ref()))
     {
         copy(NoInit, other);
     }
@@ -409,7 +414,7 @@ public:
      * \param allocator Allocator to be used for dynamic memory allocations.
      */
     AnyHolder(const AnyHolder& other, const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
         copy(other);
     }
@@ -421,7 +426,7 @@ public:
      * \param allocator Allocator to be used for dynamic memory allocations.
      */
     AnyHolder(NoInitT, const AnyHolder& other, const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AnyHolder(allocator)
     {
         copy(NoInit, other);
     }
@@ -663,8 +668,8 @@ private:
     {
         if (other.m_isInPlace)
         {
+            m_isInPlace = true; // the storage holds an empty holder even when the clone throws
             other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
-            m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
         {
@@ -680,8 +685,8 @@ private:
     {
         if (other.m_isInPlace)
         {
+            m_isInPlace = true; // the storage holds an empty holder even when the clone throws
             other.getUntypedHolder()->clone(NoInit, &m_untypedHolder.inPlace);
-            m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
         {
-- 
2.43.0


From ba57419ced3a53755aa87f7920439548e29932ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 33/38] fix: pass the allocator on and return memory as
 obtained in JsonReader

---
 .../cpp/runtime/src/zserio/JsonReader.h       | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/JsonReader.h b/compiler/extensions/cpp/runtime/src/zserio/JsonReader.h
index e5313a8..9b61d62 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/JsonReader.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/JsonReader.h
@@ -3,6 +3,7 @@
 
 #include <istream>
 #include <limits>
+#include <memory>
 
 #include "zserio/AllocatorHolder.h"
 #include "zserio/JsonParser.h"
@@ -10,7 +11,6 @@
 #include "zserio/SizeConvertUtil.h"
 #include "zserio/StringView.h"
 #include "zserio/Types.h"
-#include "zserio/UniquePtr.h"
 #include "zserio/ZserioTreeCreator.h"
 
 namespace zserio
@@ -146,7 +146,8 @@ public:
     using AllocatorHolder<ALLOC>::get_allocator;
 
     explicit CreatorAdapter(const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AllocatorHolder<ALLOC>(allocator),
+            m_keyStack(allocator)
     {}
 
     void setType(const IBasicTypeInfo<ALLOC>& typeInfo);
@@ -174,7 +175,8 @@ private:
     InplaceOptionalHolder<BasicZserioTreeCreator<ALLOC>> m_creator;
     vector<string<ALLOC>, ALLOC> m_keyStack;
     IBasicReflectablePtr<ALLOC> m_object;
-    unique_ptr<IObjectValueAdapter<ALLOC>, RebindAlloc<ALLOC, IObjectValueAdapter<ALLOC>>> m_objectValueAdapter;
+    // shared_ptr knows the size of the adapter which was allocated
+    std::shared_ptr<IObjectValueAdapter<ALLOC>> m_objectValueAdapter;
 };
 
 } // namespace detail
@@ -245,7 +247,8 @@ AnyHolder<ALLOC> BitBufferAdapter<ALLOC>::get() const
         throw CppRuntimeException("JsonReader: Unexpected end in BitBuffer!");
     }
 
-    return AnyHolder<ALLOC>(BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value()), get_allocator());
+    return AnyHolder<ALLOC>(
+            BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value(), get_allocator()), get_allocator());
 }
 
 template <typename ALLOC>
@@ -527,12 +530,12 @@ void CreatorAdapter<ALLOC>::beginObject()
                 if (cppType == CppType::BIT_BUFFER)
                 {
                     m_objectValueAdapter =
-                            allocate_unique<BitBufferAdapter<ALLOC>>(get_allocator(), get_allocator());
+                            std::allocate_shared<BitBufferAdapter<ALLOC>>(get_allocator(), get_allocator());
                 }
                 else if (cppType == CppType::BYTES)
                 {
                     m_objectValueAdapter =
-                            allocate_unique<BytesAdapter<ALLOC>>(get_allocator(), get_allocator());
+                            std::allocate_shared<BytesAdapter<ALLOC>>(get_allocator(), get_allocator());
                 }
                 else
                 {
@@ -545,12 +548,12 @@ void CreatorAdapter<ALLOC>::beginObject()
                 if (cppType == CppType::BIT_BUFFER)
                 {
                     m_objectValueAdapter =
-                            allocate_unique<BitBufferAdapter<ALLOC>>(get_allocator(), get_allocator());
+                            std::allocate_shared<BitBufferAdapter<ALLOC>>(get_allocator(), get_allocator());
                 }
                 else if (cppType == CppType::BYTES)
                 {
                     m_objectValueAdapter =
-                            allocate_unique<BytesAdapter<ALLOC>>(get_allocator(), get_allocator());
+                            std::allocate_shared<BytesAdapter<ALLOC>>(get_allocator(), get_allocator());
                 }
                 else
                 {
@@ -617,7 +620,7 @@ void CreatorAdapter<ALLOC>::beginArray()
 
         m_creator->beginArray(m_keyStack.back());
 
-        m_keyStack.push_back("");
+        m_keyStack.push_back(string<ALLOC>(get_allocator()));
     }
 }
 
-- 
2.43.0


From 9acd04da6bed0b1f40d8afd834aa723ab01526e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 34/38] fix: construct resized compound elements with the
 allocator of the array

---
 .../cpp/runtime/src/zserio/Reflectable.h           | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/Reflectable.h b/compiler/extensions/cpp/runtime/src/zserio/Reflectable.h
index e7edda0..d64c9dd 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/Reflectable.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/Reflectable.h
@@ -2785,7 +2785,19 @@ public:
 
     void resize(size_t size) override
     {
-        m_rawArray.resize(size);
+        if (size > m_rawArray.size())
+        {
+            m_rawArray.reserve(size);
+            while (m_rawArray.size() < size)
+            {
+                // new elements must use allocator of the array
+                m_rawArray.emplace_back(ALLOC(m_rawArray.get_allocator()));
+            }
+        }
+        else
+        {
+            m_rawArray.erase(m_rawArray.begin() + static_cast<std::ptrdiff_t>(size), m_rawArray.end());
+        }
     }
 
     IBasicReflectableConstPtr<ALLOC> at(size_t index) const override
-- 
2.43.0


From ffeea4106e9c78647f660617203da9f64152f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 35/38] fix: keep bit size and buffer consistent when assigning
 a BitBuffer throws

---
 .../cpp/runtime/src/zserio/BitBuffer.h           | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h b/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
index 6d1db30..9fe2f88 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/BitBuffer.h
@@ -121,7 +121,7 @@ public:
 
     BasicBitBuffer(const BasicBitBuffer<ALLOC>&) = default;
     BasicBitBuffer(const BasicBitBuffer<ALLOC>& other, const ALLOC& allocator);
-    BasicBitBuffer& operator=(const BasicBitBuffer<ALLOC>&) = default;
+    BasicBitBuffer& operator=(const BasicBitBuffer<ALLOC>& other);
 
     BasicBitBuffer(BasicBitBuffer<ALLOC>&&) = default;
     BasicBitBuffer(const BasicBitBuffer<ALLOC>&& other, const ALLOC& allocator);
@@ -287,6 +287,20 @@ inline BasicBitBuffer<ALLOC>::BasicBitBuffer(const BasicBitBuffer<ALLOC>&& other
         m_bitSize(other.m_bitSize)
 {}
 
+template <typename ALLOC>
+BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(const BasicBitBuffer<ALLOC>& other)
+{
+    if (this != &other)
+    {
+        // keeps the bit size within the buffer even if the assignment of the buffer throws
+        m_bitSize = 0;
+        m_buffer = other.m_buffer;
+        m_bitSize = other.m_bitSize;
+    }
+
+    return *this;
+}
+
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer<ALLOC>& other) const
 {
-- 
2.43.0


From 53797a66ac8507df368fec71a19a2989a5b8bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 36/38] fix: keep reflectable service data empty when it cannot
 be written

---
 compiler/extensions/cpp/runtime/src/zserio/IService.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/IService.h b/compiler/extensions/cpp/runtime/src/zserio/IService.h
index 1952436..95840a9 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/IService.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/IService.h
@@ -78,9 +78,10 @@ public:
         if (m_reflectable && m_data.getBitSize() == 0)
         {
             // lazy initialization
-            m_data = BasicBitBuffer<ALLOC>(m_reflectable->bitSizeOf(), m_data.get_allocator());
-            BitStreamWriter writer(m_data);
+            BasicBitBuffer<ALLOC> data(m_reflectable->bitSizeOf(), m_data.get_allocator());
+            BitStreamWriter writer(data);
             m_reflectable->write(writer);
+            m_data = std::move(data);
         }
         return m_data.getData();
     }
-- 
2.43.0


From 7858811e255d05c36b1ba3e34d3df311ba3b8087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 37/38] fix: self-assignment of arrays with non-initialized
 elements

---
 compiler/extensions/cpp/runtime/src/zserio/Array.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/compiler/extensions/cpp/runtime/src/zserio/Array.h b/compiler/extensions/cpp/runtime/src/zserio/Array.h
index 2f01896..8f79935 100644
--- a/compiler/extensions/cpp/runtime/src/zserio/Array.h
+++ b/compiler/extensions/cpp/runtime/src/zserio/Array.h
@@ -458,12 +458,15 @@ public:
             typename std::enable_if<std::is_constructible<T, NoInitT, T>::value, int>::type = 0>
     Array& assign(NoInitT, const Array& other)
     {
-        const RawArray rawArray(other.m_rawArray.get_allocator());
-        m_rawArray = rawArray; // copy assign to get correct allocator propagation behaviour
-        m_rawArray.reserve(other.m_rawArray.size());
-        for (const auto& value : other.m_rawArray)
+        if (this != &other)
         {
-            m_rawArray.emplace_back(NoInit, value);
+            const RawArray rawArray(other.m_rawArray.get_allocator());
+            m_rawArray = rawArray; // copy assign to get correct allocator propagation behaviour
+            m_rawArray.reserve(other.m_rawArray.size());
+            for (const auto& value : other.m_rawArray)
+            {
+                m_rawArray.emplace_back(NoInit, value);
+            }
         }
 
         return *this;
-- 
2.43.0


From 4a391a7147df8479a33c237387ca2a5c2f2dc934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:27 +0000
Subject: [PATCH 38/38] fix: compare expressions by symbols, not by identity
 hash codes

Expressions were compared using identity hash codes of the symbols they refer
to. Different symbols with the same hash code were taken for one symbol, so
that valid schemas were sometimes rejected (e.g. 'Duplicated offset expression!')
depending on the Java virtual machine.
---
 .../src/zserio/ast/ExpressionComparator.java  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/compiler/core/src/zserio/ast/ExpressionComparator.java b/compiler/core/src/zserio/ast/ExpressionComparator.java
index ab99545..c29fcf4 100644
--- a/compiler/core/src/zserio/ast/ExpressionComparator.java
+++ b/compiler/core/src/zserio/ast/ExpressionComparator.java
@@ -1,7 +1,9 @@
 package zserio.ast;
 
 import java.util.ArrayList;
+import java.util.IdentityHashMap;
 import java.util.List;
+import java.util.Map;
 
 import zserio.antlr.ZserioParser;
 import zserio.extension.common.DefaultExpressionFormattingPolicy;
@@ -44,10 +46,12 @@ final class ExpressionComparator
     {
         try
         {
-            final ExpressionFormatter expressionFormatter1 =
-                    new ExpressionFormatter(new ComparisonExpressionFormattingPolicy(new ArrayList<AstNode>()));
+            // symbols are numbered because identity hash codes of different symbols can be the same
+            final Map<AstNode, Integer> symbolIds = new IdentityHashMap<AstNode, Integer>();
+            final ExpressionFormatter expressionFormatter1 = new ExpressionFormatter(
+                    new ComparisonExpressionFormattingPolicy(new ArrayList<AstNode>(), symbolIds));
             final ExpressionFormatter expressionFormatter2 =
-                    new ExpressionFormatter(new ComparisonExpressionFormattingPolicy(dotPrefix2));
+                    new ExpressionFormatter(new ComparisonExpressionFormattingPolicy(dotPrefix2, symbolIds));
             final String formattedExpr1 = expressionFormatter1.formatGetter(removeParentheses(expr1));
             final String formattedExpr2 = expressionFormatter2.formatGetter(removeParentheses(expr2));
             if (formattedExpr1.equals(formattedExpr2))
@@ -72,8 +76,10 @@ final class ExpressionComparator
 
     private static final class ComparisonExpressionFormattingPolicy extends DefaultExpressionFormattingPolicy
     {
-        public ComparisonExpressionFormattingPolicy(List<AstNode> dotPrefix)
+        public ComparisonExpressionFormattingPolicy(List<AstNode> dotPrefix, Map<AstNode, Integer> symbolIds)
         {
+            this.symbolIds = symbolIds;
+
             final StringBuilder formattedDotPrefix = new StringBuilder();
             for (AstNode dotSymbol : dotPrefix)
             {
@@ -205,9 +211,16 @@ final class ExpressionComparator
             return new BinaryExpressionFormatting("isset(", ", ", ")");
         }
 
-        private static String formatSymbol(AstNode symbol)
+        private String formatSymbol(AstNode symbol)
         {
-            return symbol.getClass().getSimpleName() + "@" + symbol.hashCode();
+            Integer symbolId = symbolIds.get(symbol);
+            if (symbolId == null)
+            {
+                symbolId = symbolIds.size();
+                symbolIds.put(symbol, symbolId);
+            }
+
+            return symbol.getClass().getSimpleName() + "@" + symbolId;
         }
 
         private final static String ZSERIO_BINARY_LITERAL_SUFFIX = "b";
@@ -217,6 +230,7 @@ final class ExpressionComparator
 
         private final static String ZSERIO_DOT_SEPARATOR = ".";
 
+        private final Map<AstNode, Integer> symbolIds;
         private final String formattedDotPrefix;
     }
 }
-- 
2.43.0

