From 4ea395afc7aa49a06a0d62d44154c8a0ad535661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 01/55] fix: keep YAML sequence items on insert, push-front and
 erase

Insert() looped forever or lost items, PushFront() overwrote the items it
moved and Erase() left a gap in the indices.
---
 apps/multiphysics/src/input/Yaml.cpp          | 34 +++++++-----------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 36 +++++++------------
 2 files changed, 25 insertions(+), 45 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 76e86d1..56bcccd 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -305,25 +305,16 @@ public:
         }
 
         if (index >= m_Sequence.size()) {
-            auto it = m_Sequence.end();
-            --it;
-            Node* pNode = new Node;
-            m_Sequence.insert({ it->first, pNode });
-            return pNode;
+            return PushBack();
         }
 
-        auto it = m_Sequence.cbegin();
-        while (it != m_Sequence.cend())
-        {
-            m_Sequence[it->first + 1] = it->second;
-
-            if (it->first == index) {
-                break;
-            }
+        // Move all items from the given index one step back.
+        for (size_t i = m_Sequence.size(); i > index; i--) {
+            m_Sequence[i] = m_Sequence[i - 1];
         }
 
         Node* pNode = new Node;
-        m_Sequence.insert({ index, pNode });
+        m_Sequence[index] = pNode;
         return pNode;
     }
 
@@ -345,13 +336,7 @@ public:
     /////////////////////////////////////////////////////////////////////////////
     virtual Node* PushFront()
     {
-        for (auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++) {
-            m_Sequence[it->first + 1] = it->second;
-        }
-
-        Node* pNode = new Node;
-        m_Sequence.insert({ 0, pNode });
-        return pNode;
+        return Insert(0);
     }
 
     /////////////////////////////////////////////////////////////////////////////
@@ -407,7 +392,12 @@ public:
             return;
         }
         delete it->second;
-        m_Sequence.erase(index);
+
+        // Keep the indices of the remaining items contiguous.
+        for (auto next = std::next(it); next != m_Sequence.end(); it++, next++) {
+            it->second = next->second;
+        }
+        m_Sequence.erase(it);
     }
 
     /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 70adec6..d827af9 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -191,39 +191,23 @@ namespace Yaml
 
             if(index >= m_Sequence.size())
             {
-                auto it = m_Sequence.end();
-                --it;
-                Node * pNode = new Node;
-                m_Sequence.insert({it->first, pNode});
-                return pNode;
+                return PushBack();
             }
 
-            auto it = m_Sequence.cbegin();
-            while(it != m_Sequence.cend())
+            // Move all items from the given index one step back.
+            for(size_t i = m_Sequence.size(); i > index; i--)
             {
-                m_Sequence[it->first+1] = it->second;
-
-                if(it->first == index)
-                {
-                    break;
-                }
+                m_Sequence[i] = m_Sequence[i - 1];
             }
 
             Node * pNode = new Node;
-            m_Sequence.insert({index, pNode});
+            m_Sequence[index] = pNode;
             return pNode;
         }
 
         virtual Node * PushFront()
         {
-            for(auto it = m_Sequence.cbegin(); it != m_Sequence.cend(); it++)
-            {
-                m_Sequence[it->first+1] = it->second;
-            }
-
-            Node * pNode = new Node;
-            m_Sequence.insert({0, pNode});
-            return pNode;
+            return Insert(0);
         }
 
         virtual Node * PushBack()
@@ -249,7 +233,13 @@ namespace Yaml
                 return;
             }
             delete it->second;
-            m_Sequence.erase(index);
+
+            // Keep the indices of the remaining items contiguous.
+            for(auto next = std::next(it); next != m_Sequence.end(); it++, next++)
+            {
+                it->second = next->second;
+            }
+            m_Sequence.erase(it);
         }
 
         virtual void Erase(const std::string & key)
-- 
2.43.0


From a57e4dca1541b541f6d77d709e01b886a79af01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 02/55] fix: copy before clearing when a YAML node is assigned

Assigning a node to itself, or one of its own descendants to it, cleared
the source before it was copied (use after free).
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 56bcccd..172ad30 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2380,8 +2380,10 @@ void Node::Erase(const std::string& key)
 /////////////////////////////////////////////////////////////////////////////
 Node& Node::operator =(const Node& node)
 {
-    NODE_IMP->Clear();
-    CopyNode(node, *this);
+    // Copy first: the given node may be this node, or a part of it.
+    Node copy;
+    CopyNode(node, copy);
+    std::swap(m_pImp, copy.m_pImp);
     return *this;
 }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index d827af9..cc4b23b 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1063,8 +1063,10 @@ namespace Yaml
 
     Node & Node::operator = (const Node & node)
     {
-        NODE_IMP->Clear();
-        CopyNode(node, *this);
+        // Copy first: the given node may be this node, or a part of it.
+        Node copy;
+        CopyNode(node, copy);
+        std::swap(m_pImp, copy.m_pImp);
         return *this;
     }
 
-- 
2.43.0


From d91f2a7c18df26ae6e65f137149473e8cabbf2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 03/55] fix: a copy of an empty YAML sequence or map keeps its
 type

---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++++
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 172ad30..4df3692 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4228,6 +4228,9 @@ void CopyNode(const Node& from, Node& to)
 
     switch (type) {
     case Node::SequenceType:
+        // An empty sequence is still a sequence.
+        to.PushBack();
+        to.Erase(0);
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to.PushBack();
@@ -4235,6 +4238,9 @@ void CopyNode(const Node& from, Node& to)
         }
         break;
     case Node::MapType:
+        // An empty map is still a map.
+        to[""];
+        to.Erase("");
         for (auto it = from.Begin(); it != from.End(); it++) {
             const Node& currentNode = (*it).second;
             Node& newNode = to[(*it).first];
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index cc4b23b..40d47d1 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2702,6 +2702,9 @@ namespace Yaml
         switch(type)
         {
         case Node::SequenceType:
+            // An empty sequence is still a sequence.
+            to.PushBack();
+            to.Erase(0);
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
@@ -2710,6 +2713,9 @@ namespace Yaml
             }
             break;
         case Node::MapType:
+            // An empty map is still a map.
+            to[""];
+            to.Erase("");
             for(auto it = from.Begin(); it != from.End(); it++)
             {
                 const Node & currentNode = (*it).second;
-- 
2.43.0


From f6018942d68d5f7cab8706143f7fb8955d562966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 04/55] fix: accept empty YAML values at any depth and read
 them as empty

An empty map value below an indented key was rejected with 'Incorrect
offset', an empty sequence item swallowed the next item, and an empty value
was read as a newline.
---
 apps/multiphysics/src/input/Yaml.cpp            | 15 ++++++++++++---
 .../src/Yaml-Serializable/src/Yaml.cpp          | 17 ++++++++++++++---
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 4df3692..e313c44 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2954,7 +2954,13 @@ private:
 
         const size_t valueStart = pLine->Data.find_first_not_of(" \t", 1);
         if (valueStart == std::string::npos) {
-            return true;
+            if (it != m_Lines.end() && (*it)->Offset > pLine->Offset) {
+                return true;
+            }
+
+            // The item is empty, add a new line with an empty value.
+            it = m_Lines.insert(it, new ReaderLine("", pLine->No, pLine->Offset + 2, Node::ScalarType));
+            return false;
         }
 
         // Create new line and insert
@@ -3033,7 +3039,7 @@ private:
                 return true;
             }
 
-            newLineOffset = tokenPos + 2;
+            newLineOffset = pLine->Offset + tokenPos + 2;
         }
         else{
             newLineOffset += pLine->Offset;
@@ -3266,7 +3272,10 @@ private:
 
                 const size_t endOffset = pLine->Data.find_last_not_of(" \t");
                 if (endOffset == std::string::npos) {
-                    data += "\n";
+                    // An empty value has no data at all.
+                    if (pLine != pFirstLine) {
+                        data += "\n";
+                    }
                 }
                 else{
                     data += pLine->Data.substr(0, endOffset + 1);
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 40d47d1..d0d7af0 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1567,7 +1567,14 @@ namespace Yaml
             const size_t valueStart = pLine->Data.find_first_not_of(" \t", 1);
             if (valueStart == std::string::npos)
             {
-                return true;
+                if(it != m_Lines.end() && (*it)->Offset > pLine->Offset)
+                {
+                    return true;
+                }
+
+                // The item is empty, add a new line with an empty value.
+                it = m_Lines.insert(it, new ReaderLine("", pLine->No, pLine->Offset + 2, Node::ScalarType));
+                return false;
             }
 
             // Create new line and insert
@@ -1657,7 +1664,7 @@ namespace Yaml
                     return true;
                 }
 
-                newLineOffset = tokenPos + 2;
+                newLineOffset = pLine->Offset + tokenPos + 2;
             }
             else
             {
@@ -1918,7 +1925,11 @@ namespace Yaml
                     const size_t endOffset = pLine->Data.find_last_not_of(" \t");
                     if(endOffset == std::string::npos)
                     {
-                        data += "\n";
+                        // An empty value has no data at all.
+                        if(pLine != pFirstLine)
+                        {
+                            data += "\n";
+                        }
                     }
                     else
                     {
-- 
2.43.0


From 878ece61fa32a892ae510a7de69931ed422bdff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 05/55] fix: keep quotes inside YAML block scalars

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e313c44..39ef848 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3357,7 +3357,7 @@ private:
             }
         }
 
-        if (data.size() && (data[0] == '"' || data[0] == '\'')) {
+        if (isBlockScalar == false && data.size() && (data[0] == '"' || data[0] == '\'')) {
             data = data.substr(1, data.size() - 2);
         }
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index d0d7af0..1089fe9 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2028,7 +2028,7 @@ namespace Yaml
                 }
             }
 
-            if(data.size() && (data[0] == '"' || data[0] == '\''))
+            if(isBlockScalar == false && data.size() && (data[0] == '"' || data[0] == '\''))
             {
                 data = data.substr(1, data.size() - 2 );
             }
-- 
2.43.0


From 74228a0980b18ba9932f1396d2977b89f42e2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 06/55] fix: recognise YAML document markers in CRLF files and
 after directives

---
 apps/multiphysics/src/input/Yaml.cpp          | 15 ++++++++-------
 .../src/Yaml-Serializable/src/Yaml.cpp        | 19 ++++++++++---------
 2 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 39ef848..9007c9f 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2820,6 +2820,13 @@ private:
             std::getline(stream, line);
             lineNo++;
 
+            // Remove trailing return.
+            if (line.size()) {
+                if (line[line.size() - 1] == '\r') {
+                    line.resize(line.size() - 1);
+                }
+            }
+
             // Remove comment
             const size_t commentPos = FindNotCited(line, '#');
             if (commentPos != std::string::npos) {
@@ -2831,6 +2838,7 @@ private:
                 // Erase all lines before this line.
                 ClearLines();
                 documentStartFound = true;
+                foundFirstNotEmpty = false;
                 continue;
             }
 
@@ -2843,13 +2851,6 @@ private:
                 break;
             }
 
-            // Remove trailing return.
-            if (line.size()) {
-                if (line[line.size() - 1] == '\r') {
-                    line.resize(line.size() - 1);
-                }
-            }
-
             // Validate characters.
             for (size_t i = 0; i < line.size(); i++) {
                 if (line[i] != '\t' && (line[i] < 32 || line[i] > 125)) {
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 1089fe9..26f73a7 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1410,6 +1410,15 @@ namespace Yaml
                 std::getline(stream, line);
                 lineNo++;
 
+                // Remove trailing return.
+                if (line.size())
+                {
+                    if (line[line.size() - 1] == '\r')
+                    {
+                        line.resize(line.size() - 1);
+                    }
+                }
+
                 // Remove comment
                 const size_t commentPos = FindNotCited(line, '#');
                 if(commentPos != std::string::npos)
@@ -1423,6 +1432,7 @@ namespace Yaml
                     // Erase all lines before this line.
                     ClearLines();
                     documentStartFound = true;
+                    foundFirstNotEmpty = false;
                     continue;
                 }
 
@@ -1437,15 +1447,6 @@ namespace Yaml
                     break;
                 }
 
-                // Remove trailing return.
-                if (line.size())
-                {
-                    if (line[line.size() - 1] == '\r')
-                    {
-                        line.resize(line.size() - 1);
-                    }
-                }
-
                 // Validate characters.
                 for (size_t i = 0; i < line.size(); i++)
                 {
-- 
2.43.0


From e4aa37795da217e5ee8b4889d97fefd54caa8c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 07/55] fix: read empty lists, and lists with spaced items, as
 they were written

An empty vector, set or [] was not read back as empty, and the items of
[A, B] kept their leading space, so that enumerations were rejected.
---
 .../include/yaml-serializable-containers.h             | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 3f0cd3f..5391d0f 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -81,11 +81,16 @@ namespace Yaml {
                 return !std::isspace(ch) && ch != ']';
             }).base(), s.end());
             std::vector<std::string> result;
+            // No items at all: "[]".
+            if (s.empty()) return result;
             std::stringstream ss(s);
             std::string word;
             while (!ss.eof()) {
                 std::getline(ss, word, delimeter);
-                result.push_back(word);
+                // Spaces around an item are not part of it.
+                const size_t first = word.find_first_not_of(" \t");
+                const size_t last  = word.find_last_not_of(" \t");
+                result.push_back(first == std::string::npos ? "" : word.substr(first, last - first + 1));
             }
             return result;
         }
@@ -108,6 +113,9 @@ namespace Yaml {
             Yaml::Node sequence_node;
             if (node.IsScalar()) {
                 auto s = node.As<std::string>();
+                // An empty list is serialized without any items.
+                if (s.empty())
+                    return sequence_node;
                 if (!looks_like_a_list(s))
                     throw Yaml::ConfigurationException("Failed to parse string: `" + s + "`. Expected a list.");
                 for (auto token : tokenizer(node.As<std::string>(), ','))
-- 
2.43.0


From 19765d507a0f444e78494739cf736ee0342af9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 08/55] fix: do not return uninitialised values for unreadable
 YAML scalars

---
 apps/multiphysics/src/input/Yaml.hpp                    | 4 ++--
 legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.hpp b/apps/multiphysics/src/input/Yaml.hpp
index 586657f..64fdfe6 100644
--- a/apps/multiphysics/src/input/Yaml.hpp
+++ b/apps/multiphysics/src/input/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
@@ -77,7 +77,7 @@ namespace Yaml
 
             static T Get(const std::string & data, const T & defaultValue)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
 
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
index 586657f..64fdfe6 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/Yaml.hpp
@@ -69,7 +69,7 @@ namespace Yaml
         {
             static T Get(const std::string & data)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
                 return type;
@@ -77,7 +77,7 @@ namespace Yaml
 
             static T Get(const std::string & data, const T & defaultValue)
             {
-                T type;
+                T type = T();
                 std::stringstream ss(data);
                 ss >> type;
 
-- 
2.43.0


From 2780a947c3a81b749ac8dc94e5f052dbe7ad6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 09/55] fix: strict loading compares against the input as
 provided

The raw pass converts the nodes it visits, so a list given for a struct was
replaced before it was compared and its items were silently ignored.
---
 .../src/Yaml-Serializable/include/yaml-serializable.h        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
index ae8cb36..52a1a38 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
@@ -77,7 +77,10 @@ namespace Yaml {
 
         template<typename... Types>
         inline void strict_validation(Node& node, Types&... args) {
-            from_raw(node, args...);
+            // Deserializing may convert and create nodes, so compare
+            // against the input as it was provided.
+            Node raw_node = node;
+            from_raw(raw_node, args...);
 
             Node re_serialized;
             to(re_serialized, args...);
-- 
2.43.0


From e33f17a274bb6b1ad4082ae6ff15c1780d3ba5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 10/55] fix: allow '~' in YAML input

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 9007c9f..1b93e5f 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2853,7 +2853,7 @@ private:
 
             // Validate characters.
             for (size_t i = 0; i < line.size(); i++) {
-                if (line[i] != '\t' && (line[i] < 32 || line[i] > 125)) {
+                if (line[i] != '\t' && (line[i] < 32 || line[i] > 126)) {
                     throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                 }
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 26f73a7..3d53df2 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1450,7 +1450,7 @@ namespace Yaml
                 // Validate characters.
                 for (size_t i = 0; i < line.size(); i++)
                 {
-                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 125))
+                    if (line[i] != '\t' && (line[i] < 32 || line[i] > 126))
                     {
                         throw ParsingException(ExceptionMessage(g_ErrorInvalidCharacter, lineNo, i + 1));
                     }
-- 
2.43.0


From edf7993296f0fbc0444eda4b8bf87cae2cd0f2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:19 +0000
Subject: [PATCH 11/55] fix: parse compact nested YAML sequences

---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 1b93e5f..72238c4 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -2969,7 +2969,7 @@ private:
         it = m_Lines.insert(it, new ReaderLine(newLine, pLine->No, pLine->Offset + valueStart));
         pLine->Data = "";
 
-        return false;
+        return true;
     }
 
     /**
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 3d53df2..dc305af 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -1583,7 +1583,7 @@ namespace Yaml
             it = m_Lines.insert(it, new ReaderLine(newLine, pLine->No, pLine->Offset + valueStart));
             pLine->Data = "";
 
-            return false;
+            return true;
         }
 
         /**
-- 
2.43.0


From d5e826c0facd99b45fe7cd2ab7a7676715bd713f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 12/55] fix: ignore every token inside a quoted YAML text

Only the first ':' or '#' of a quoted text was skipped; the second one was
taken as the end of a key or as a comment.
---
 apps/multiphysics/src/input/Yaml.cpp                | 2 +-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 72238c4..af7f8e8 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4106,7 +4106,7 @@ size_t FindNotCited(const std::string& input, char token, size_t& preQuoteCount)
             return tokenPos;
         }
         preQuoteCount++;
-        if (tokenPos <= currentQuote.second) {
+        while (tokenPos <= currentQuote.second) {
             // Find next token
             if (tokenPos + 1 == input.size()) {
                 return std::string::npos;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index dc305af..4a03302 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2618,7 +2618,7 @@ namespace Yaml
                 return tokenPos;
             }
             preQuoteCount++;
-            if(tokenPos <= currentQuote.second)
+            while(tokenPos <= currentQuote.second)
             {
                 // Find next token
                 if(tokenPos + 1 == input.size())
-- 
2.43.0


From 1313f6e1d42b76ea9a20390647a267395a5f4dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 13/55] fix: write YAML block scalars so that they can be read
 back

A block scalar at root had no indentation, one on its own line started in
the first column, and a single line lost its trailing newline.
---
 apps/multiphysics/src/input/Yaml.cpp               | 12 ++++++++++--
 .../Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp   | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index af7f8e8..9e3678e 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3841,7 +3841,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
         }
 
         // Literal
-        if (lines.size() > 1) {
+        if (lines.size() > 1 || endNewline) {
+            if (useLevel) {
+                stream << std::string(level, ' ');
+            }
             stream << "|";
         }
         // Folded/plain
@@ -3861,6 +3864,9 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
                 break;
             }
             else{
+                if (useLevel) {
+                    stream << std::string(level, ' ');
+                }
                 stream << ">";
             }
         }
@@ -3870,8 +3876,10 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
         }
         stream << "\n";
 
+        // The lines of a block scalar are always indented, even at root.
+        const size_t blockLevel = level > 0 ? level : indention;
         for (auto it = lines.begin(); it != lines.end(); it++) {
-            stream << std::string(level, ' ') << (*it) << "\n";
+            stream << std::string(blockLevel, ' ') << (*it) << "\n";
         }
     }
     break;
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 4a03302..09cdd32 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2444,8 +2444,12 @@ namespace Yaml
                 }
 
                 // Literal
-                if(lines.size() > 1)
+                if(lines.size() > 1 || endNewline)
                 {
+                    if(useLevel)
+                    {
+                        stream << std::string(level, ' ');
+                    }
                     stream << "|";
                 }
                 // Folded/plain
@@ -2470,6 +2474,10 @@ namespace Yaml
                     }
                     else
                     {
+                        if(useLevel)
+                        {
+                            stream << std::string(level, ' ');
+                        }
                         stream << ">";
                     }
                 }
@@ -2481,9 +2489,11 @@ namespace Yaml
                 stream << "\n";
 
 
+                // The lines of a block scalar are always indented, even at root.
+                const size_t blockLevel = level > 0 ? level : indention;
                 for(auto it = lines.begin(); it != lines.end(); it++)
                 {
-                    stream << std::string(level, ' ') << (*it) << "\n";
+                    stream << std::string(blockLevel, ' ') << (*it) << "\n";
                 }
             }
             break;
-- 
2.43.0


From 7a5559e70e950ad55e176fc40b1a04c65409eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 14/55] fix: only fold YAML scalars where they can be unfolded

Folding at repeated spaces or a text with '#' could not be read back.
---
 apps/multiphysics/src/input/Yaml.cpp          | 18 ++++++++++++++++++
 .../src/Yaml-Serializable/src/Yaml.cpp        | 19 +++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 9e3678e..c20bae4 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3688,6 +3688,18 @@ void Serialize(const Node& root, const char* filename, const SerializeConfig& co
     f.close();
 }
 
+static bool IsBlank(const std::string& input, const size_t pos)
+{
+    return pos >= input.size() || input[pos] == ' ' || input[pos] == '\t';
+}
+
+static bool IsFoldable(const std::string& input)
+{
+    // A comment token must be cited, and outer blanks are lost in a folded scalar.
+    return input.find_first_of('#') == std::string::npos
+           && IsBlank(input, 0) == false && IsBlank(input, input.size() - 1) == false;
+}
+
 /////////////////////////////////////////////////////////////////////////////
 ///
 /// \fn LineFolding
@@ -3720,6 +3732,11 @@ size_t LineFolding(const std::string& input, std::vector<std::string>& folded, c
 
         if (currentPos < input.size()) {
             spacePos = input.find_first_of(' ', currentPos);
+
+            // Only fold at single spaces, any other spaces would not be read back.
+            while (spacePos != std::string::npos && (IsBlank(input, spacePos - 1) || IsBlank(input, spacePos + 1))) {
+                spacePos = input.find_first_of(' ', spacePos + 1);
+            }
         }
 
         if (spacePos == std::string::npos || currentPos >= input.size()) {
@@ -3851,6 +3868,7 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
         else{
             const std::string frontLine = lines.front();
             if (config.ScalarMaxLength == 0 || lines.front().size() <= config.ScalarMaxLength
+                || IsFoldable(frontLine) == false
                 || LineFolding(frontLine, lines, config.ScalarMaxLength) == 1) {
                 if (useLevel) {
                     stream << std::string(level, ' ');
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 09cdd32..be47111 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2304,6 +2304,11 @@ namespace Yaml
         f.close();
     }
 
+    static bool IsBlank(const std::string & input, const size_t pos)
+    {
+        return pos >= input.size() || input[pos] == ' ' || input[pos] == '\t';
+    }
+
     size_t LineFolding(const std::string & input, std::vector<std::string> & folded, const size_t maxLength)
     {
         folded.clear();
@@ -2322,6 +2327,12 @@ namespace Yaml
             if(currentPos < input.size())
             {
                spacePos = input.find_first_of(' ', currentPos);
+
+               // Only fold at single spaces, any other spaces would not be read back.
+               while(spacePos != std::string::npos && (IsBlank(input, spacePos - 1) || IsBlank(input, spacePos + 1)))
+               {
+                   spacePos = input.find_first_of(' ', spacePos + 1);
+               }
             }
 
             if(spacePos == std::string::npos || currentPos >= input.size())
@@ -2343,6 +2354,13 @@ namespace Yaml
         return folded.size();
     }
 
+    static bool IsFoldable(const std::string & input)
+    {
+        // A comment token must be cited, and outer blanks are lost in a folded scalar.
+        return input.find_first_of('#') == std::string::npos &&
+               IsBlank(input, 0) == false && IsBlank(input, input.size() - 1) == false;
+    }
+
     static void SerializeLoop(const Node & node, std::iostream & stream, bool useLevel, const size_t level, const SerializeConfig & config)
     {
         const size_t indention = config.SpaceIndentation;
@@ -2457,6 +2475,7 @@ namespace Yaml
                 {
                     const std::string frontLine = lines.front();
                     if(config.ScalarMaxLength == 0 || lines.front().size() <= config.ScalarMaxLength ||
+                       IsFoldable(frontLine) == false ||
                        LineFolding(frontLine, lines, config.ScalarMaxLength) == 1)
                     {
                         if(useLevel)
-- 
2.43.0


From 362a792b97dc92df91ec618bc82bf304f0866359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 15/55] fix: cite YAML texts with outer blanks, apostrophes or
 a document end marker

---
 apps/multiphysics/src/input/Yaml.cpp                | 3 ++-
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index c20bae4..e9dcaa9 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4309,7 +4309,8 @@ void CopyNode(const Node& from, Node& to)
 /////////////////////////////////////////////////////////////////////////////
 bool ShouldBeCited(const std::string& key)
 {
-    return key.find_first_of("\":{}[],&*#?|-<>=!%@") != std::string::npos;
+    return key.find_first_of("\":{}[],&*#?|-<>=!%@'") != std::string::npos
+           || IsBlank(key, 0) || IsBlank(key, key.size() - 1) || key == "...";
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index be47111..aff6475 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2774,7 +2774,8 @@ namespace Yaml
 
     bool ShouldBeCited(const std::string & key)
     {
-        return key.find_first_of("\":{}[],&*#?|-<>=!%@") != std::string::npos;
+        return key.find_first_of("\":{}[],&*#?|-<>=!%@'") != std::string::npos ||
+               IsBlank(key, 0) || IsBlank(key, key.size() - 1) || key == "...";
     }
 
     void AddEscapeTokens(std::string & input, const std::string & tokens)
-- 
2.43.0


From 4865880e3401a69ccc09c8cda9182b5a3b6dc29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 16/55] fix: write YAML texts with double quotes or backslashes
 as literals

---
 apps/multiphysics/src/input/Yaml.cpp                | 4 ++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index e9dcaa9..ce5421e 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -3857,8 +3857,8 @@ static void SerializeLoop(const Node& node, std::iostream& stream, bool useLevel
             lines.pop_back();
         }
 
-        // Literal
-        if (lines.size() > 1 || endNewline) {
+        // Literal. Double quotes and backslashes are only kept in a literal scalar.
+        if (lines.size() > 1 || endNewline || value.find_first_of("\"\\") != std::string::npos) {
             if (useLevel) {
                 stream << std::string(level, ' ');
             }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index aff6475..784f9c6 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2461,8 +2461,8 @@ namespace Yaml
                     lines.pop_back();
                 }
 
-                // Literal
-                if(lines.size() > 1 || endNewline)
+                // Literal. Double quotes and backslashes are only kept in a literal scalar.
+                if(lines.size() > 1 || endNewline || value.find_first_of("\"\\") != std::string::npos)
                 {
                     if(useLevel)
                     {
-- 
2.43.0


From 24d0de6db88d8fff775ced3eb05bb0957aec044c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:12 +0000
Subject: [PATCH 17/55] fix: iterating over a YAML node without items
 terminates

The begin and end iterators of a scalar or empty node never compared equal.
---
 apps/multiphysics/src/input/Yaml.cpp                | 6 ++++--
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index ce5421e..81e7ed2 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1756,7 +1756,8 @@ bool Iterator::operator ==(const Iterator& it)
         break;
     }
 
-    return false;
+    // Iterators of nodes without any items.
+    return true;
 }
 
 /////////////////////////////////////////////////////////////////////////////
@@ -1993,7 +1994,8 @@ bool ConstIterator::operator ==(const ConstIterator& it)
         break;
     }
 
-    return false;
+    // Iterators of nodes without any items.
+    return true;
 }
 
 /////////////////////////////////////////////////////////////////////////////
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 784f9c6..e3a18d4 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -775,7 +775,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // Iterators of nodes without any items.
+        return true;
     }
 
     bool Iterator::operator != (const Iterator & it)
@@ -928,7 +929,8 @@ namespace Yaml
             break;
         }
 
-        return false;
+        // Iterators of nodes without any items.
+        return true;
     }
 
     bool ConstIterator::operator != (const ConstIterator & it)
-- 
2.43.0


From bb464c06237893392c22b5fde8dbc2c75d48b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:08 +0000
Subject: [PATCH 18/55] fix: accept an empty quoted YAML text

---
 apps/multiphysics/src/input/Yaml.cpp                | 1 -
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 81e7ed2..3a21a7a 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -4202,7 +4202,6 @@ bool ValidateQuote(const std::string& input)
             return false;
         }
         token     = input[0];
-        searchPos = 1;
     }
 
     while (searchPos != std::string::npos && searchPos < input.size() - 1)
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index e3a18d4..957ff7e 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -2691,7 +2691,6 @@ namespace Yaml
                 return false;
             }
             token = input[0];
-            searchPos = 1;
         }
 
         while(searchPos != std::string::npos && searchPos < input.size() - 1)
-- 
2.43.0


From c17e681efcedc8edaa142ccf396dbe178ea81f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:38 +0000
Subject: [PATCH 19/55] fix: assigning a YAML iterator to itself keeps its
 position

---
 legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
index 957ff7e..90ae768 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/src/Yaml.cpp
@@ -666,6 +666,11 @@ namespace Yaml
 
     Iterator & Iterator::operator = (const Iterator & it)
     {
+        if(this == &it)
+        {
+            return *this;
+        }
+
         if(m_pImp)
         {
             switch(m_Type)
@@ -820,6 +825,11 @@ namespace Yaml
 
     ConstIterator & ConstIterator::operator = (const ConstIterator & it)
     {
+        if(this == &it)
+        {
+            return *this;
+        }
+
         if(m_pImp)
         {
             switch(m_Type)
-- 
2.43.0


From 8fab967be557266411b0e2a33a40c26177d64db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:51 +0000
Subject: [PATCH 20/55] fix: assigning a YAML iterator to itself keeps its
 position (multiphysics copy)

---
 apps/multiphysics/src/input/Yaml.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/apps/multiphysics/src/input/Yaml.cpp b/apps/multiphysics/src/input/Yaml.cpp
index 3a21a7a..9ba7159 100644
--- a/apps/multiphysics/src/input/Yaml.cpp
+++ b/apps/multiphysics/src/input/Yaml.cpp
@@ -1591,6 +1591,10 @@ Iterator::Iterator(const Iterator& it) :
 /////////////////////////////////////////////////////////////////////////////
 Iterator& Iterator::operator =(const Iterator& it)
 {
+    if (this == &it) {
+        return *this;
+    }
+
     if (m_pImp) {
         switch (m_Type) {
         case SequenceType:
@@ -1829,6 +1833,10 @@ ConstIterator::ConstIterator(const ConstIterator& it) :
 /////////////////////////////////////////////////////////////////////////////
 ConstIterator& ConstIterator::operator =(const ConstIterator& it)
 {
+    if (this == &it) {
+        return *this;
+    }
+
     if (m_pImp) {
         switch (m_Type) {
         case SequenceType:
-- 
2.43.0


From 6e47de53c17d91233a9b3ce57a7890643082747c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 21/55] fix: read long bracket lists without exhausting the
 stack

---
 .../include/yaml-serializable-containers.h                 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 5391d0f..7d4daff 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -47,7 +47,7 @@
 #include <vector>
 #include <sstream>
 #include <optional>
-#include <regex>
+#include <algorithm>
 
 namespace Yaml {
     namespace {
@@ -98,8 +98,9 @@ namespace Yaml {
         /**
          * Checks if this string looks like a Yaml list or not.
         */
-        bool looks_like_a_list(std::string s) {
-            return std::regex_match(s, std::regex("\\[[^\\[\\]\n]*\\]"));
+        bool looks_like_a_list(const std::string& s) {
+            return s.size() >= 2 && s.front() == '['
+                && s.find_first_of("[]\n", 1) == s.size() - 1 && s.back() == ']';
         }
         
         /**
-- 
2.43.0


From 9a32671f11195923c00db150a5fc9766cf0e7ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:26 +0000
Subject: [PATCH 22/55] fix: null pointers are written as nothing instead of
 being dereferenced

---
 .../include/yaml-serializable-containers.h             | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index 7d4daff..b8f7505 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -242,6 +242,11 @@ namespace Yaml {
             }
 
             static void serialize(const std::shared_ptr<T>& v, Yaml::Node& node) {
+                // A null pointer has no value to write.
+                if (v == nullptr) {
+                    node.Clear();
+                    return;
+                }
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
@@ -269,6 +274,11 @@ namespace Yaml {
             }
             
             static void serialize(const std::unique_ptr<T>& v, Yaml::Node& node) {
+                // A null pointer has no value to write.
+                if (v == nullptr) {
+                    node.Clear();
+                    return;
+                }
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     T::serialize_as_derived(v.get(), node);
                 } else {
-- 
2.43.0


From e2683c2e42cf574cf5732b25198acdf944d33cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 23/55] fix: run derive and validate hooks that override
 virtual ones of the base class

---
 .../include/yaml-post-processing.h            | 34 ++++++-------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h
index 9b01c82..d234746 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-post-processing.h
@@ -39,7 +39,7 @@
 #pragma once
 #ifndef YAML_POST_PROCESSING_H
 #define YAML_POST_PROCESSING_H
-#include <cstring>
+#include <type_traits>
 
 namespace Yaml {
     /**
@@ -77,27 +77,15 @@ namespace Yaml {
     };
 
     namespace {
-        /** 
-         * Compares the bytes of two objects 
-         * without casting them.
-         * Only reason its here is to compare pointers to member functions with 
-         * the following class structure:
-         * 
-         * struct A { };
-         * struct B : virtual A { };
-         * struct C : B { };
-         * 
-         * (&C::function == &A::function)  ---> "error: pointer to member conversion via virtual base"
-         * compare_bytes(&C::function, &A::function) ---> Not an error
-         * 
-         * This works because typical comparison needs to cast the data to determine the correct
-         * comparator to dispatch. However, we don't need any kind of fancy comparison. Just want to 
-         * know if the pointers point to the same thing or not.
+        /**
+         * Does the class T inherit the member function that B has, instead of defining its own?
+         * Then the address of both is of the same type, a pointer to member of the class
+         * which defines it. (Comparing the addresses themselves would also take a virtual function
+         * for the one it overrides, since both have the same position in the table of virtual functions.)
         */
-        template<typename T, typename K>
-        bool compare_bytes(T a, K b) {
-            return (sizeof(a) == sizeof(b))
-                && (memcmp(&a, &b, sizeof(a)) == 0);
+        template<typename PT, typename PB>
+        constexpr bool is_inherited(PT, PB) {
+            return std::is_same<PT, PB>::value;
         }
 
         template<typename T>
@@ -111,7 +99,7 @@ namespace Yaml {
         
         template<typename T, typename B>
         void derive_with_base(T& v, std::true_type, std::true_type) {
-            if (compare_bytes(&T::derive, &B::derive))
+            if (is_inherited(&T::derive, &B::derive))
                 return;
             v.T::derive();
         }
@@ -137,7 +125,7 @@ namespace Yaml {
 
         template<typename T, typename B>
         void validate_with_base(T& v, std::true_type, std::true_type) {
-            if (compare_bytes(&T::validate, &B::validate))
+            if (is_inherited(&T::validate, &B::validate))
                 return;
             v.T::validate();
         }
-- 
2.43.0


From c849903f81cd4fbc2014a5f95e9c61c3757423fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 24/55] fix: let errors raised by an applied handler reach the
 caller

---
 .../include/type-discrimination.h             | 44 ++++++++-----------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
index 59cc75a..93bfcc0 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/type-discrimination.h
@@ -103,38 +103,30 @@ namespace Yaml {
     private:
         template<typename T>
         bool dispatch_known_type(TypeDiscriminated* base, const std::function<void(T)>& f) {
-            try {
-                if constexpr (std::is_pointer<T>::value) {
-                    T cast = dynamic_cast<T>(base);
-                    if (cast == nullptr) return false;
-                    f(cast);
-                } else {
-                    T* cast = dynamic_cast<T*>(base);
-                    if (cast == nullptr) return false;
-                    f(*cast);
-                }
-                return true;
-            } catch (const std::bad_cast&) {
-                return false;
+            if constexpr (std::is_pointer<T>::value) {
+                T cast = dynamic_cast<T>(base);
+                if (cast == nullptr) return false;
+                f(cast);
+            } else {
+                T* cast = dynamic_cast<T*>(base);
+                if (cast == nullptr) return false;
+                f(*cast);
             }
+            return true;
         }
 
         template<typename T>
         bool dispatch_known_type(TypeDiscriminated* base, const std::function<void(T&)>& f) {
-            try {
-                if constexpr (std::is_pointer<T>::value) {
-                    T cast = dynamic_cast<T>(base);
-                    if (cast == nullptr) return false;
-                    f(cast);
-                } else {
-                    T* cast = dynamic_cast<T*>(base);
-                    if (cast == nullptr) return false;
-                    f(*cast);
-                }
-                return true;
-            } catch (const std::bad_cast&) {
-                return false;
+            if constexpr (std::is_pointer<T>::value) {
+                T cast = dynamic_cast<T>(base);
+                if (cast == nullptr) return false;
+                f(cast);
+            } else {
+                T* cast = dynamic_cast<T*>(base);
+                if (cast == nullptr) return false;
+                f(*cast);
             }
+            return true;
         }
 
         template <typename T> 
-- 
2.43.0


From 881ff96adf889e1c20f7019b802562e527f2860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:06 +0000
Subject: [PATCH 25/55] fix: values a document leaves out are not left
 uninitialised

---
 .../include/yaml-serializable-containers.h                | 8 ++++----
 .../src/Yaml-Serializable/include/yaml-serializable.h     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
index b8f7505..dfacd97 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable-containers.h
@@ -138,7 +138,7 @@ namespace Yaml {
         template<typename T, typename F>
         void deserialize_to_iterable(Node& node, bool raw, F inserter) {
             for(size_t i = 0; i < node.Size(); i++) {
-                T item;
+                T item = T();
                 deserialize_from_indexed_item(item, node, raw, i);
                 inserter(item);
             }
@@ -190,7 +190,7 @@ namespace Yaml {
         struct Impl<std::optional<T>> {
             static void deserialize(std::optional<T>& v, Yaml::Node& node, bool raw) {
                 if (!node.IsNone()) {
-                    T inner_value;
+                    T inner_value = T();
                     Yaml::deserialize(inner_value, node, raw);
                     v = inner_value;
                 } 
@@ -235,7 +235,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v = T();
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_shared<T>(inner_v);
                 }
@@ -267,7 +267,7 @@ namespace Yaml {
                 if constexpr (decltype(IsTypeDiscriminated<T>::check(*v))::value) {
                     v = std::move(T::deserialize_as_derived(node, raw));
                 } else {
-                    T inner_v;
+                    T inner_v = T();
                     Yaml::deserialize(inner_v, node, raw);
                     v = std::make_unique<T>(inner_v);
                 }
diff --git a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
index 52a1a38..14932ab 100644
--- a/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
+++ b/legacy/Fierro_V0/src/Yaml-Serializable/include/yaml-serializable.h
@@ -148,7 +148,7 @@ namespace Yaml {
     inline T from_string(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v = T();
         from(node, v);
         return v;
     }
@@ -163,7 +163,7 @@ namespace Yaml {
     inline T from_string_strict(const std::string& s) {
         Node node;
         Parse(node, s);
-        T v;
+        T v = T();
         from_strict(node, v);
         return v;
     }
@@ -211,7 +211,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v = T();
         from(node, v);
         return v;
     }
@@ -229,7 +229,7 @@ namespace Yaml {
         // Pass c_str to get the file reading functionality.
         // If its a string it will just parse it directly.
         Parse(node, filename.c_str());
-        T v;
+        T v = T();
         from_strict(node, v);
         return v;
     }
-- 
2.43.0


From bf082faa6c1016dcfc67f4ac5d244ea9974a0c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 26/55] fix: write VTK grid data of integer and size types as
 numbers

---
 apps/micromechanics/EVPFFT/src/VTKUniformGridWriter.h       | 6 +++---
 apps/micromechanics/LS-EVPFFT-J2/src/VTKUniformGridWriter.h | 6 +++---
 apps/micromechanics/LS-EVPFFT/src/VTKUniformGridWriter.h    | 6 +++---
 apps/micromechanics/LSNP-EVPFFT/src/VTKUniformGridWriter.h  | 6 +++---
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/apps/micromechanics/EVPFFT/src/VTKUniformGridWriter.h b/apps/micromechanics/EVPFFT/src/VTKUniformGridWriter.h
index 706955a..d2a8c68 100644
--- a/apps/micromechanics/EVPFFT/src/VTKUniformGridWriter.h
+++ b/apps/micromechanics/EVPFFT/src/VTKUniformGridWriter.h
@@ -44,10 +44,10 @@ void VTKUniformGridWriter::write_header()
   fprintf(vtk_file, "%s\n", "ASCII");
   fprintf(vtk_file, "%s\n", "DATASET STRUCTURED_POINTS");
 
-  fprintf(vtk_file, "%s %d  %d  %d\n", "DIMENSIONS", N1, N2, N3);
+  fprintf(vtk_file, "%s %zu  %zu  %zu\n", "DIMENSIONS", N1, N2, N3);
   fprintf(vtk_file, "%s %d %d %d\n", "ORIGIN", 0, 0, 0);
   fprintf(vtk_file, "%s %d %d %d\n", "SPACING", 1, 1, 1);
-  fprintf(vtk_file, "%s %d\n", "POINT_DATA", N1*N2*N3);
+  fprintf(vtk_file, "%s %zu\n", "POINT_DATA", N1*N2*N3);
 }
 
 template <typename T>
@@ -57,7 +57,7 @@ void VTKUniformGridWriter::write_scalar_dataset(T* data_ptr, const char* dataNam
   fprintf(vtk_file, "%s\n", "LOOKUP_TABLE default");
 
   for (int i = 0; i < N1*N2*N3; i++) {
-    fprintf(vtk_file, " %12.6E\n", data_ptr[i]);
+    fprintf(vtk_file, " %12.6E\n", static_cast<double>(data_ptr[i]));
   }
 }
 
diff --git a/apps/micromechanics/LS-EVPFFT-J2/src/VTKUniformGridWriter.h b/apps/micromechanics/LS-EVPFFT-J2/src/VTKUniformGridWriter.h
index 706955a..d2a8c68 100644
--- a/apps/micromechanics/LS-EVPFFT-J2/src/VTKUniformGridWriter.h
+++ b/apps/micromechanics/LS-EVPFFT-J2/src/VTKUniformGridWriter.h
@@ -44,10 +44,10 @@ void VTKUniformGridWriter::write_header()
   fprintf(vtk_file, "%s\n", "ASCII");
   fprintf(vtk_file, "%s\n", "DATASET STRUCTURED_POINTS");
 
-  fprintf(vtk_file, "%s %d  %d  %d\n", "DIMENSIONS", N1, N2, N3);
+  fprintf(vtk_file, "%s %zu  %zu  %zu\n", "DIMENSIONS", N1, N2, N3);
   fprintf(vtk_file, "%s %d %d %d\n", "ORIGIN", 0, 0, 0);
   fprintf(vtk_file, "%s %d %d %d\n", "SPACING", 1, 1, 1);
-  fprintf(vtk_file, "%s %d\n", "POINT_DATA", N1*N2*N3);
+  fprintf(vtk_file, "%s %zu\n", "POINT_DATA", N1*N2*N3);
 }
 
 template <typename T>
@@ -57,7 +57,7 @@ void VTKUniformGridWriter::write_scalar_dataset(T* data_ptr, const char* dataNam
   fprintf(vtk_file, "%s\n", "LOOKUP_TABLE default");
 
   for (int i = 0; i < N1*N2*N3; i++) {
-    fprintf(vtk_file, " %12.6E\n", data_ptr[i]);
+    fprintf(vtk_file, " %12.6E\n", static_cast<double>(data_ptr[i]));
   }
 }
 
diff --git a/apps/micromechanics/LS-EVPFFT/src/VTKUniformGridWriter.h b/apps/micromechanics/LS-EVPFFT/src/VTKUniformGridWriter.h
index 706955a..d2a8c68 100644
--- a/apps/micromechanics/LS-EVPFFT/src/VTKUniformGridWriter.h
+++ b/apps/micromechanics/LS-EVPFFT/src/VTKUniformGridWriter.h
@@ -44,10 +44,10 @@ void VTKUniformGridWriter::write_header()
   fprintf(vtk_file, "%s\n", "ASCII");
   fprintf(vtk_file, "%s\n", "DATASET STRUCTURED_POINTS");
 
-  fprintf(vtk_file, "%s %d  %d  %d\n", "DIMENSIONS", N1, N2, N3);
+  fprintf(vtk_file, "%s %zu  %zu  %zu\n", "DIMENSIONS", N1, N2, N3);
   fprintf(vtk_file, "%s %d %d %d\n", "ORIGIN", 0, 0, 0);
   fprintf(vtk_file, "%s %d %d %d\n", "SPACING", 1, 1, 1);
-  fprintf(vtk_file, "%s %d\n", "POINT_DATA", N1*N2*N3);
+  fprintf(vtk_file, "%s %zu\n", "POINT_DATA", N1*N2*N3);
 }
 
 template <typename T>
@@ -57,7 +57,7 @@ void VTKUniformGridWriter::write_scalar_dataset(T* data_ptr, const char* dataNam
   fprintf(vtk_file, "%s\n", "LOOKUP_TABLE default");
 
   for (int i = 0; i < N1*N2*N3; i++) {
-    fprintf(vtk_file, " %12.6E\n", data_ptr[i]);
+    fprintf(vtk_file, " %12.6E\n", static_cast<double>(data_ptr[i]));
   }
 }
 
diff --git a/apps/micromechanics/LSNP-EVPFFT/src/VTKUniformGridWriter.h b/apps/micromechanics/LSNP-EVPFFT/src/VTKUniformGridWriter.h
index 706955a..d2a8c68 100644
--- a/apps/micromechanics/LSNP-EVPFFT/src/VTKUniformGridWriter.h
+++ b/apps/micromechanics/LSNP-EVPFFT/src/VTKUniformGridWriter.h
@@ -44,10 +44,10 @@ void VTKUniformGridWriter::write_header()
   fprintf(vtk_file, "%s\n", "ASCII");
   fprintf(vtk_file, "%s\n", "DATASET STRUCTURED_POINTS");
 
-  fprintf(vtk_file, "%s %d  %d  %d\n", "DIMENSIONS", N1, N2, N3);
+  fprintf(vtk_file, "%s %zu  %zu  %zu\n", "DIMENSIONS", N1, N2, N3);
   fprintf(vtk_file, "%s %d %d %d\n", "ORIGIN", 0, 0, 0);
   fprintf(vtk_file, "%s %d %d %d\n", "SPACING", 1, 1, 1);
-  fprintf(vtk_file, "%s %d\n", "POINT_DATA", N1*N2*N3);
+  fprintf(vtk_file, "%s %zu\n", "POINT_DATA", N1*N2*N3);
 }
 
 template <typename T>
@@ -57,7 +57,7 @@ void VTKUniformGridWriter::write_scalar_dataset(T* data_ptr, const char* dataNam
   fprintf(vtk_file, "%s\n", "LOOKUP_TABLE default");
 
   for (int i = 0; i < N1*N2*N3; i++) {
-    fprintf(vtk_file, " %12.6E\n", data_ptr[i]);
+    fprintf(vtk_file, " %12.6E\n", static_cast<double>(data_ptr[i]));
   }
 }
 
-- 
2.43.0


From 67597863f2f4081b731b5c4de9abcdde094f3c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 27/55] fix: geo_equilibration_model selects the geometric
 model, not the material one

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index d507f78..b387a9e 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -1101,17 +1101,17 @@ void parse_multimaterial_options(Yaml::Node& root, Material_t& Materials)
                 switch(equilibration_model_map[equilibration_model]){
                     case model::tiptonEquilibration:
                     {
-                        Materials.EquilibrationModels = model::tiptonEquilibration;
+                        Materials.GeoEquilibrationModels = model::tiptonEquilibration;
                         break;
                     }
                     case model::userDefinedEquilibration:
                     {
-                        Materials.EquilibrationModels = model::userDefinedEquilibration;
+                        Materials.GeoEquilibrationModels = model::userDefinedEquilibration;
                         break;
                     }
                     case model::noEquilibration:
                     {
-                        Materials.EquilibrationModels = model::noEquilibration;
+                        Materials.GeoEquilibrationModels = model::noEquilibration;
                         break;
                     }
                     default:
-- 
2.43.0


From b1ced7990904b69897e1cc0b92ce26cfe623748d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 28/55] fix: find an element's earlier fill of the same
 material by its fill id

---
 apps/multiphysics/src/common/src/region_fill.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 19a27d5..569a886 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1420,12 +1420,6 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // the number of materials saved to this element, initialized to 0 at start of code
     size_t fill_storage_lid = num_fills_saved_in_elem(elem_gid);
 
-    // check on exceeding 3 materials per element
-    if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
-        Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
-    } // end if check
-
-
     // material id assigned to this fill
     const size_t mat_id = region_fills(fill_id).material_id;
 
@@ -1435,7 +1429,7 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     for (size_t a_fill=0; a_fill < num_fills_saved_in_elem(elem_gid); a_fill++){
 
         // get the mat_id in this fill
-        size_t a_mat_id = region_fills(a_fill).material_id;
+        size_t a_mat_id = region_fills(elem_fill_ids(elem_gid, a_fill)).material_id;
         if(mat_id == a_mat_id){
             // overwrite the existing material lid with new fill instructions
             fill_storage_lid = a_fill;  
@@ -1448,6 +1442,11 @@ void append_fills_in_elem(const DCArrayKokkos <double>& elem_volfracs,
     // There will now be at least 1 material so we want
     // num_fills_saved_in_elem >= 1, and it is intialized at 0 
     if (check_mat_exists == false){
+        // check on exceeding the max number of materials per element
+        if (num_fills_saved_in_elem(elem_gid) > max_num_mats_per_elem-1){
+            Kokkos::abort("ERROR: exceeded max number of materials in an element when painting regions on the mesh \n Set max_num_mats_per_element to a larger value under multimaterial_options \n");
+        } // end if check
+
         // we are adding a new material, so increment the number of saved
         num_fills_saved_in_elem(elem_gid) += 1;
     } // end check if material is a new one
-- 
2.43.0


From 99f60d0a5633266df2c7647b6eee865427595a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 29/55] fix: radial and spherical volume fractions are measured
 from their origin

---
 apps/multiphysics/src/common/src/region_fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 569a886..c63ee33 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1509,7 +1509,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 2; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
@@ -1530,7 +1530,7 @@ double get_region_scalar(const ViewCArrayKokkos <double> mesh_coords,
 
                 for (int dim = 0; dim < 3; dim++) {
                     dir[dim]    = (mesh_coords(dim) - orig[dim]);
-                    radius_val += mesh_coords(dim) * mesh_coords(dim);
+                    radius_val += dir[dim] * dir[dim];
                 } // end for
                 radius_val -= scalar; 
                 radius_val = sqrt(radius_val);
-- 
2.43.0


From b0f4e1f5b1ef9a528e21a81b99527ea156aa6199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:10 +0000
Subject: [PATCH 30/55] fix: allocate the internal energy to fill also when the
 specific one is filled

---
 apps/multiphysics/src/common/include/state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/state.hpp b/apps/multiphysics/src/common/include/state.hpp
index e2d8e33..3ab7c63 100644
--- a/apps/multiphysics/src/common/include/state.hpp
+++ b/apps/multiphysics/src/common/include/state.hpp
@@ -123,7 +123,7 @@ struct fillGaussState_t
                     }
                     break;
                 case fill_gauss_state::internal_energy:
-                    if (sie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
+                    if (ie.size() == 0) this->ie = DCArrayKokkos<double>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_ie");
                     if (use_sie.size() == 0){ 
                         this->use_sie = DCArrayKokkos<bool>(num_gauss_points, max_mats_in_elem, "fill_gauss_point_use_sie");
                         use_sie.set_values(false);
-- 
2.43.0


From bf8ba20d467dac1305629091f5880e36d15878c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 31/55] fix: the documented options for no boundary condition
 and no EOS type are accepted

---
 .../stress/no_stress_bc.hpp                   | 153 +++++++++---------
 .../src/input/parse_bdy_conds_inputs.cpp      |  26 +++
 .../src/input/parse_material_inputs.cpp       |   9 ++
 3 files changed, 112 insertions(+), 76 deletions(-)

diff --git a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
index 9549ea9..d395b57 100644
--- a/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/stress/no_stress_bc.hpp
@@ -1,77 +1,78 @@
-/**********************************************************************************************
-� 2020. Triad National Security, LLC. All rights reserved.
-This program was produced under U.S. Government contract 89233218CNA000001 for Los Alamos
-National Laboratory (LANL), which is operated by Triad National Security, LLC for the U.S.
-Department of Energy/National Nuclear Security Administration. All rights in the program are
-reserved by Triad National Security, LLC, and the U.S. Department of Energy/National Nuclear
-Security Administration. The Government is granted for itself and others acting on its behalf a
-nonexclusive, paid-up, irrevocable worldwide license in this material to reproduce, prepare
-derivative works, distribute copies to the public, perform publicly and display publicly, and
-to permit others to do so.
-This program is open source under the BSD-3 License.
-Redistribution and use in source and binary forms, with or without modification, are permitted
-provided that the following conditions are met:
-1.  Redistributions of source code must retain the above copyright notice, this list of
-conditions and the following disclaimer.
-2.  Redistributions in binary form must reproduce the above copyright notice, this list of
-conditions and the following disclaimer in the documentation and/or other materials
-provided with the distribution.
-3.  Neither the name of the copyright holder nor the names of its contributors may be used
-to endorse or promote products derived from this software without specific prior
-written permission.
-THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS
-IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
-IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR
-PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR
-CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL,
-EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO,
-PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS;
-OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY,
-WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR
-OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF
-ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
-**********************************************************************************************/
-
-#ifndef BOUNDARY_STRESS_NONE_H
-#define BOUNDARY_STRESS_NONE_H
-
-#include "boundary_conditions.hpp"
-
-struct BoundaryConditionEnums_t;
-
-namespace NoStressBC
-{
-/////////////////////////////////////////////////////////////////////////////
-///
-/// \fn Boundary stress does not exist, its a free surface
-///
-/// \brief This is a function for a free surface, the default case
-///
-/// \param Mesh object
-/// \param Boundary condition enums to select options
-/// \param Boundary condition global variables array
-/// \param Boundary condition state variables array
-/// \param Node force
-/// \param Time of the simulation
-/// \param Boundary global index for the surface node
-/// \param Boundary set local id
-///
-/////////////////////////////////////////////////////////////////////////////
-KOKKOS_FUNCTION
-static void stress(const swage::Mesh& mesh,
-    const DCArrayKokkos<BoundaryConditionEnums_t>& BoundaryConditionEnums,
-    const RaggedRightArrayKokkos<double>& stress_bc_global_vars,
-    const DCArrayKokkos<double>& bc_state_vars,
-    const ViewCArrayKokkos <double>& corner_surf_force,
-    const ViewCArrayKokkos <double>& corner_surf_normal,
-    const double time_value,
-    const size_t bdy_node_gid,
-    const size_t bdy_set)
-{
-
-
-    return;
-} // end stress
-} // end namespace
-
+/**********************************************************************************************
+� 2020. Triad National Security, LLC. All rights reserved.
+This program was produced under U.S. Government contract 89233218CNA000001 for Los Alamos
+National Laboratory (LANL), which is operated by Triad National Security, LLC for the U.S.
+Department of Energy/National Nuclear Security Administration. All rights in the program are
+reserved by Triad National Security, LLC, and the U.S. Department of Energy/National Nuclear
+Security Administration. The Government is granted for itself and others acting on its behalf a
+nonexclusive, paid-up, irrevocable worldwide license in this material to reproduce, prepare
+derivative works, distribute copies to the public, perform publicly and display publicly, and
+to permit others to do so.
+This program is open source under the BSD-3 License.
+Redistribution and use in source and binary forms, with or without modification, are permitted
+provided that the following conditions are met:
+1.  Redistributions of source code must retain the above copyright notice, this list of
+conditions and the following disclaimer.
+2.  Redistributions in binary form must reproduce the above copyright notice, this list of
+conditions and the following disclaimer in the documentation and/or other materials
+provided with the distribution.
+3.  Neither the name of the copyright holder nor the names of its contributors may be used
+to endorse or promote products derived from this software without specific prior
+written permission.
+THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS "AS
+IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT LIMITED TO, THE
+IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS FOR A PARTICULAR
+PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE COPYRIGHT HOLDER OR
+CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT, INCIDENTAL, SPECIAL,
+EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING, BUT NOT LIMITED TO,
+PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES; LOSS OF USE, DATA, OR PROFITS;
+OR BUSINESS INTERRUPTION) HOWEVER CAUSED AND ON ANY THEORY OF LIABILITY,
+WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR
+OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF
+ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
+**********************************************************************************************/
+
+#ifndef BOUNDARY_STRESS_NONE_H
+#define BOUNDARY_STRESS_NONE_H
+
+#include "boundary_conditions.hpp"
+
+struct BoundaryConditionEnums_t;
+
+namespace NoStressBC
+{
+/////////////////////////////////////////////////////////////////////////////
+///
+/// \fn Boundary stress does not exist, its a free surface
+///
+/// \brief This is a function for a free surface, the default case
+///
+/// \param Mesh object
+/// \param Boundary condition enums to select options
+/// \param Boundary condition global variables array
+/// \param Boundary condition state variables array
+/// \param Node force
+/// \param Time of the simulation
+/// \param Boundary global index for the surface node
+/// \param Boundary set local id
+///
+/////////////////////////////////////////////////////////////////////////////
+KOKKOS_FUNCTION
+static void stress(const swage::Mesh& mesh,
+    const DCArrayKokkos<BoundaryConditionEnums_t>& BoundaryConditionEnums,
+    const RaggedRightArrayKokkos<double>& stress_bc_global_vars,
+    const DCArrayKokkos<double>& bc_state_vars,
+    const ViewCArrayKokkos <double>& corner_surf_force,
+    const ViewCArrayKokkos <double>& corner_surf_normal,
+    const double time_value,
+    const size_t rk_stage,
+    const size_t bdy_node_gid,
+    const size_t bdy_set)
+{
+
+
+    return;
+} // end stress
+} // end namespace
+
 #endif // end Header Guard
\ No newline at end of file
diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index a8cbf1a..d6da147 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -240,6 +240,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     // bc_velocity_model_map[velocity_model] returns enum value, e.g., boundary_conditions::velocity_constant
                     switch(map[velocity_model]){
 
+                        case boundary_conditions::noVelocityBC :
+                            std::cout << "Setting no velocity bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCVelocityModel = boundary_conditions::noVelocityBC ;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).velocity = &NoVelocityBC::velocity;
+                            });
+                            break;
+
                         case boundary_conditions::constantVelocityBC :
                             std::cout << "Setting constant velocity bc " << std::endl;
                             
@@ -338,6 +347,14 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     auto bc_temperature_model = map[temperature_model];
                     
                     switch(map[temperature_model]){
+                        case boundary_conditions::noTemperatureBC:
+                            std::cout << "Setting no temperature bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCTemperatureModel = boundary_conditions::noTemperatureBC;
+                            });
+                            break;
+
                         case boundary_conditions::constantTemperatureBC:
                             std::cout << "Setting constant temperature bc " << std::endl;
                             
@@ -395,6 +412,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                     // bc_stress_model_map[stress_model] returns enum value, e.g., boundary_conditions::stress_constant
                     switch(map[stress_model]){
 
+                        case boundary_conditions::noStressBC :
+                            std::cout << "Setting no stress bc " << std::endl;
+                            
+                            RUN({
+                                BoundaryConditions.BoundaryConditionEnums(bc_id).BCStressModel = boundary_conditions::noStressBC ;
+                                BoundaryConditions.BoundaryConditionFunctions(bc_id).stress = &NoStressBC::stress;
+                            });
+                            break;
+
                         case boundary_conditions::constantStressBC :
                             std::cout << "Setting stress bc " << std::endl;
                             
diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index b387a9e..4bbb8bf 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -225,6 +225,15 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
 
                     // eos_type_map[type] returns enum value, e.g., model::decoupled
                     switch(eos_type_map[type]){
+                        case model::noEOSType:
+                            std::cout << "Setting EOS type to no EOS " << std::endl;
+                            RUN({
+                                Materials.MaterialEnums(mat_id).EOSType = model::noEOSType;
+                            });
+
+                            Materials.MaterialEnums.host(mat_id).EOSType = model::noEOSType;
+                            break;
+
                         case model::decoupledEOSType:
                             std::cout << "Setting EOS type to decoupled " << std::endl;
                             RUN({
-- 
2.43.0


From 5d5a9d62f9c0fbff419826123493da624e95a5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 32/55] fix: refuse unknown temperature models, EOS types and
 region volume types

---
 apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp | 9 +++++++++
 apps/multiphysics/src/input/parse_material_inputs.cpp  | 1 +
 apps/multiphysics/src/input/parse_regions.cpp          | 4 ++++
 3 files changed, 14 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
index d6da147..2ec95b1 100644
--- a/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_bdy_conds_inputs.cpp
@@ -388,6 +388,15 @@ void parse_bcs(Yaml::Node& root, BoundaryCondition_t& BoundaryConditions, const
                             break;
                     }
                 }
+                else{
+                    std::cout << "ERROR: invalid boundary condition option input in YAML file: " << temperature_model << std::endl;
+                    std::cout << "Valid options are: " << std::endl;
+
+                    for (const auto& pair : map) {
+                        std::cout << "\t" << pair.first << std::endl;
+                    }
+                    throw std::runtime_error("**** Boundary Condition Temperature Model Not Understood ****");
+                } // end if
 
             }   
 
diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 4bbb8bf..f4fba46 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -269,6 +269,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                 } 
                 else{
                     std::cout << "ERROR: invalid eos type input: " << type << std::endl;
+                    throw std::runtime_error("**** EOS Type Not Understood ****");
                 } // end if
             }
             //
diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index a1c6798..c19b6fa 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -1441,6 +1441,10 @@ void parse_regions(Yaml::Node& root,
                                     break;
                             } // end switch
                         } // end if on setting volume tag
+                        else{
+                            std::cout << "ERROR: invalid input: " << type << std::endl;
+                            throw std::runtime_error("**** Region Volume Fill Type Not Understood ****");
+                        } // end if
 
                     }  // end if on volume type
                     // Get mesh file path
-- 
2.43.0


From dbc6dc9f651879f76ae652fae7414b4b538787b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 33/55] fix: refuse a region whose solver_id is out of range

---
 apps/multiphysics/src/input/parse_regions.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/input/parse_regions.cpp b/apps/multiphysics/src/input/parse_regions.cpp
index c19b6fa..3625ac9 100644
--- a/apps/multiphysics/src/input/parse_regions.cpp
+++ b/apps/multiphysics/src/input/parse_regions.cpp
@@ -125,7 +125,13 @@ void parse_regions(Yaml::Node& root,
             // set the values
             if (a_word.compare("solver_id") == 0) {
                 int solver_id = root["regions"][reg_id]["region"][a_word].As<int>();
-                
+
+                if (solver_id<0 || solver_id>=num_solvers){
+                    std::cout << "ERROR: invalid solver_id specified in the region definition " << std::endl;
+
+                    throw std::runtime_error("**** Solver_id is out of bounds ****");
+                } // end check on solver_id range
+
                 // get the local id for filling this region
                 size_t fill_lid = num_reg_fills_in_solver.host(solver_id);
 
-- 
2.43.0


From e30442829e17408d1fc792fdb2f0650f65f05027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:48 +0000
Subject: [PATCH 34/55] fix: output options that are not given have a value

---
 apps/multiphysics/src/common/include/output_options.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/common/include/output_options.hpp b/apps/multiphysics/src/common/include/output_options.hpp
index f9240b8..552d5de 100644
--- a/apps/multiphysics/src/common/include/output_options.hpp
+++ b/apps/multiphysics/src/common/include/output_options.hpp
@@ -123,8 +123,8 @@ static std::map<std::string, material_pt_state> elem_outputs_map
 /////////////////////////////////////////////////////////////////////////////
 struct output_options_t
 {
-    output_options::format format;  ///< Format for the output files
-    output_options::timer_output_level timer_level; ///< How often to output mesh WARNING: CURRENTLY UNUSED
+    output_options::format format = output_options::viz;  ///< Format for the output files
+    output_options::timer_output_level timer_level = output_options::thorough; ///< How often to output mesh WARNING: CURRENTLY UNUSED
 
     double graphics_time_step   = 1.0;  ///< How often to write a graphics dump in time
     int graphics_iteration_step = 2000000;  ///< How often to write a graphics dump by iteration count
-- 
2.43.0


From 5c2a6d78a86cfa5f124e8cab2e81e3fb20ec5d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 35/55] fix: directional_MARS and directional_MARS_rz select
 the directional models

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index f4fba46..2bb7d06 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -648,7 +648,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARS;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARS;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSDissipationModel::calc_dissipation;
                             });
                             break;
                         //
@@ -662,7 +662,7 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
                             Materials.MaterialEnums.host(mat_id).DissipationModels = model::directionalMARSRZ;
                             RUN({
                                 Materials.MaterialEnums(mat_id).DissipationModels = model::directionalMARSRZ;
-                                Materials.MaterialFunctions(mat_id).calc_dissipation = &MARSRZDissipationModel::calc_dissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &DirMARSRZDissipationModel::calc_dissipation;
                             });
                             break;                        
                         default:
-- 
2.43.0


From 73637dc1259b614c84792a1212846f53ef224722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 36/55] fix: the third coordinate of a boundary patch of a 2D
 mesh is zero, not uninitialised

---
 apps/multiphysics/src/common/src/geometry_new.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/geometry_new.cpp b/apps/multiphysics/src/common/src/geometry_new.cpp
index eb20124..6a17cb4 100644
--- a/apps/multiphysics/src/common/src/geometry_new.cpp
+++ b/apps/multiphysics/src/common/src/geometry_new.cpp
@@ -639,7 +639,7 @@ size_t check_bdy(const size_t patch_gid,
     size_t is_on_bdy = 0;
 
     // the patch coordinates
-    double these_patch_coords[3];  // Note: cannot allocated array with num_dims
+    double these_patch_coords[3] = { 0.0, 0.0, 0.0 };  // Note: cannot allocated array with num_dims
 
     // loop over the nodes on the patch
     for (size_t patch_node_lid = 0; patch_node_lid < mesh.num_nodes_in_patch; patch_node_lid++) {
-- 
2.43.0


From 40c4cb8a233c20b44b0569fa2eb61053786e2f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 37/55] fix: a spherical velocity on a 2D mesh does not read
 past the coordinates of the node

---
 apps/multiphysics/src/common/src/region_fill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index c63ee33..56cf37d 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1899,7 +1899,7 @@ void paint_vector(const DCArrayKokkos<double>& vector_field,
                     dir[2] = 0.0;
                     double radius_val = 0.0;
 
-                    for (int dim = 0; dim < 3; dim++) {
+                    for (int dim = 0; dim < num_dims; dim++) {
                         dir[dim]    = mesh_coords(dim);
                         radius_val += mesh_coords(dim) * mesh_coords(dim);
                     } // end for
-- 
2.43.0


From 0584a151761e553b6904e1755445b2d3eef9f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 38/55] fix: a radial field is offset by its value, as a
 spherical one is

---
 apps/multiphysics/src/common/src/region_fill.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 56cf37d..4dc6764 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -1627,7 +1627,7 @@ void paint_multi_scalar(const DCArrayKokkos<double>& field_scalar,
                     radius_val += delta*delta;
                 } // end for
                 radius_val = slope*sqrt(radius_val);
-                radius_val -= scalar*scalar; 
+                radius_val -= scalar; 
 
                 field_scalar(mesh_gid,bin) = radius_val;
 
-- 
2.43.0


From 7e017ab0585f30d2b54a96c49500fa8f289296c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 39/55] fix: an Abaqus mesh is scaled and its node ids can be
 any numbers

---
 .../src/common/include/mesh_io.hpp            | 21 ++++++++++---------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index a6d9194..b0ecac9 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -368,7 +368,7 @@ public:
             read_ensight_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
         }
         else if(extension == "inp"){ // Abaqus meshfile extension
-            read_Abaqus_mesh(mesh, State, num_dims);
+            read_Abaqus_mesh(mesh, State, mesh_inps, num_dims);
         }
         else if(extension == "vtk"){ // vtk file format
             read_vtk_mesh(mesh, State.GaussPoints, State.node, State.corner, mesh_inps, num_dims);
@@ -542,12 +542,13 @@ public:
     ///
     /// \param Simulation mesh
     /// \param Simulation state
-    /// \param Node state struct
+    /// \param Mesh inputs, with the scaling of the coordinates
     /// \param Number of dimensions
     ///
     /////////////////////////////////////////////////////////////////////////////
     void read_Abaqus_mesh(swage::Mesh& mesh,
                           State_t& State,
+                          mesh_input_t& mesh_inps,
                           int num_dims)
     {
 
@@ -654,11 +655,13 @@ public:
         State.node.initialize(num_nodes, num_dims, required_node_state);
 
 
-        // Copy nodes to mesh
+        // Copy nodes to mesh, the ids in the file can be any (unique) numbers
+        std::map<int, size_t> node_gid_of_id;
         for(int node_gid = 0; node_gid < num_nodes; node_gid++){
-            State.node.coords.host(node_gid, 0) = nodes[node_gid].x;
-            State.node.coords.host(node_gid, 1) = nodes[node_gid].y;
-            State.node.coords.host(node_gid, 2) = nodes[node_gid].z;
+            State.node.coords.host(node_gid, 0) = mesh_inps.scale_x*nodes[node_gid].x;
+            State.node.coords.host(node_gid, 1) = mesh_inps.scale_y*nodes[node_gid].y;
+            State.node.coords.host(node_gid, 2) = mesh_inps.scale_z*nodes[node_gid].z;
+            node_gid_of_id[nodes[node_gid].id] = node_gid;
         }
 
         // Update device nodal positions
@@ -676,10 +679,8 @@ public:
         // for each cell read the list of associated nodes
         for (int elem_gid = 0; elem_gid < num_elem; elem_gid++) {
             for (int node_lid = 0; node_lid < 8; node_lid++) {
-                mesh.nodes_in_elem.host(elem_gid, node_lid) = elements[elem_gid].connectivity[node_lid];
-
-                // shift to start node index space at 0
-                mesh.nodes_in_elem.host(elem_gid, node_lid) -= 1;
+                // node ids in the file to the node index space that starts at 0
+                mesh.nodes_in_elem.host(elem_gid, node_lid) = node_gid_of_id.at(elements[elem_gid].connectivity[node_lid]);
             }
         }
 
-- 
2.43.0


From 405aeccf925541fd49544ba53e1c06e5d6b0361a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 40/55] Hooks that show a run's steps to a verification build
 (FIERRO_VERIF_TRACE)

---
 .../src/Solvers/SGH_solver_3D/src/sgh_execute.cpp     | 10 ++++++++++
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp  | 10 ++++++++++
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp   | 10 ++++++++++
 .../level_set_solver/src/level_set_execute.cpp        | 10 ++++++++++
 apps/multiphysics/src/common/include/verif_trace.hpp  | 11 +++++++++++
 5 files changed, 51 insertions(+)
 create mode 100644 apps/multiphysics/src/common/include/verif_trace.hpp

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 5b6295d..1dc05cc 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -39,6 +39,7 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 //#include "mesh.hpp""
 #include "state.hpp"
 #include "geometry_new.hpp"
+#include "verif_trace.hpp"
 #include "mesh_io.hpp"
 #include "tipton_equilibration.hpp"
 #include "fracture_stress_bc.hpp"
@@ -207,6 +208,9 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
     graphics_time = time_value + graphics_dt_ival;
 
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("start", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     // loop over the max number of time integration cycles
     for (size_t cycle = 0; cycle < cycle_stop; cycle++) {
         // stop calculation if flag
@@ -582,6 +586,9 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
 
         // increment the time
         time_value += dt;
+#ifdef FIERRO_VERIF_TRACE
+        fierro_verif_trace("step", this->solver_id, cycle, time_value, dt, mesh, State);
+#endif
 
         size_t write = 0;
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
@@ -622,6 +629,9 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
         }
     } // end for cycle loop
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("end", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     auto time_2    = std::chrono::high_resolution_clock::now();
     auto calc_time = std::chrono::duration_cast<std::chrono::nanoseconds>(time_2 - time_1).count();
 
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 21e4139..9bfa1d4 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -40,6 +40,7 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 //#include "mesh.hpp""
 #include "state.hpp"
 #include "geometry_new.hpp"
+#include "verif_trace.hpp"
 #include "mesh_io.hpp"
 
 /////////////////////////////////////////////////////////////////////////////
@@ -173,6 +174,9 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
 
 
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("start", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     // loop over the max number of time integration cycles
     for (size_t cycle = 0; cycle < cycle_stop; cycle++) {
         // stop calculation if flag
@@ -429,6 +433,9 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
 
         // increment the time
         time_value += dt;
+#ifdef FIERRO_VERIF_TRACE
+        fierro_verif_trace("step", this->solver_id, cycle, time_value, dt, mesh, State);
+#endif
 
         size_t write = 0;
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
@@ -471,6 +478,9 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
 
     } // end for cycle loop
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("end", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     auto time_2    = std::chrono::high_resolution_clock::now();
     auto calc_time = std::chrono::duration_cast<std::chrono::nanoseconds>(time_2 - time_1).count();
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index f86663e..cde15c6 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -39,6 +39,7 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "boundary_conditions.hpp"
 #include "state.hpp"
 #include "geometry_new.hpp"
+#include "verif_trace.hpp"
 #include "mesh_io.hpp"
 #include "additive_data.hpp"
 
@@ -173,6 +174,9 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         } // end for mat_id
     }
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("start", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     // ---- loop over the max number of time integration cycles ---- //
     for (size_t cycle = 0; cycle < cycle_stop; cycle++) {
 
@@ -351,6 +355,9 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
 
         
         time_value += dt;
+#ifdef FIERRO_VERIF_TRACE
+        fierro_verif_trace("step", this->solver_id, cycle, time_value, dt, mesh, State);
+#endif
 
 
         // ---- Move heat source ---- //
@@ -410,6 +417,9 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         }
     } // end for cycle loop
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("end", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     auto time_2    = std::chrono::high_resolution_clock::now();
     auto calc_time = std::chrono::duration_cast<std::chrono::nanoseconds>(time_2 - time_1).count();
     printf("\nCalculation time in seconds: %f \n", calc_time * 1e-9);
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 75ba514..f4337fe 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -40,6 +40,7 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 //#include "mesh.hpp""
 #include "state.hpp"
 #include "geometry_new.hpp"
+#include "verif_trace.hpp"
 #include "mesh_io.hpp"
 
 /////////////////////////////////////////////////////////////////////////////
@@ -122,6 +123,9 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
 
     graphics_time = time_value + graphics_dt_ival;
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("start", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     // loop over the max number of time integration cycles
     for (size_t cycle = 0; cycle < cycle_stop; cycle++) {
         // stop calculation if flag
@@ -302,6 +306,9 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
 
         // increment the time
         time_value += dt;
+#ifdef FIERRO_VERIF_TRACE
+        fierro_verif_trace("step", this->solver_id, cycle, time_value, dt, mesh, State);
+#endif
 
         size_t write = 0;
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
@@ -342,6 +349,9 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
         }
     } // end for cycle loop
 
+#ifdef FIERRO_VERIF_TRACE
+    fierro_verif_trace("end", this->solver_id, 0, time_value, dt, mesh, State);
+#endif
     auto time_2    = std::chrono::high_resolution_clock::now();
     auto calc_time = std::chrono::duration_cast<std::chrono::nanoseconds>(time_2 - time_1).count();
 
diff --git a/apps/multiphysics/src/common/include/verif_trace.hpp b/apps/multiphysics/src/common/include/verif_trace.hpp
new file mode 100644
index 0000000..daa1d71
--- /dev/null
+++ b/apps/multiphysics/src/common/include/verif_trace.hpp
@@ -0,0 +1,11 @@
+#ifndef FIERRO_VERIF_TRACE_H
+#define FIERRO_VERIF_TRACE_H
+
+// Shows a program that watches a run where its solvers are (nothing in other builds)
+#ifdef FIERRO_VERIF_TRACE
+#include "state.hpp"
+
+void fierro_verif_trace(const char* where, size_t solver_id, size_t cycle, double time_value, double dt, swage::Mesh& mesh, State_t& State);
+#endif
+
+#endif
-- 
2.43.0


From 7bc965c9e441e41ea110b106fc965acaf7b23deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 41/55] fix: an output written for another reason does not move
 the ones that are due

---
 .../src/Solvers/SGH_solver_3D/src/sgh_execute.cpp            | 5 ++++-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp         | 5 ++++-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp          | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 1dc05cc..770eaf1 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -618,7 +618,10 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
                                    SGH3D_State::required_material_pt_state,
                                    this->solver_id);
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            // outputs written for another reason do not move the next one that is due
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 9bfa1d4..5f36da6 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -466,7 +466,10 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            // outputs written for another reason do not move the next one that is due
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
             dt = cached_pregraphics_dt;
         } // end if
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index cde15c6..e28ad5b 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -407,7 +407,10 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                                    this->solver_id);
 
             output_id++;
-            graphics_time = (double)(output_id) * graphics_dt_ival;
+            // outputs written for another reason do not move the next one that is due
+            if (time_value >= graphics_time) {
+                graphics_time += graphics_dt_ival;
+            }
 
         } // end if
 
-- 
2.43.0


From f4441a6420a183f64177b8cbc21300067d1bef11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 42/55] fix: the last state is written when the number of
 cycles ends a run

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp | 2 +-
 .../src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp            | 2 +-
 .../src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp             | 2 +-
 .../src/Solvers/level_set_solver/src/level_set_execute.cpp      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
index 770eaf1..598699d 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/sgh_execute.cpp
@@ -594,7 +594,7 @@ void SGH3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
index 5f36da6..82a8df5 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/sgh_execute_rz.cpp
@@ -441,7 +441,7 @@ void SGHRZ::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index e28ad5b..38e1dcb 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -380,7 +380,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index f4337fe..4939c46 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -314,7 +314,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
         if ((cycle + 1) % graphics_cyc_ival == 0 && cycle > 0) {
             write = 1;
         }
-        else if (cycle == cycle_stop) {
+        else if (cycle + 1 == cycle_stop) {
             write = 1;
         }
         else if (time_value >= time_final) {
-- 
2.43.0


From 1bf727dd53d6a683fc535c25132aff029f77e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 43/55] fix: the first solver starts at time_initial, and no
 solver ends before it starts or after the end of the run

---
 apps/multiphysics/src/driver.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/driver.cpp b/apps/multiphysics/src/driver.cpp
index 8ff09fe..3e6ae10 100644
--- a/apps/multiphysics/src/driver.cpp
+++ b/apps/multiphysics/src/driver.cpp
@@ -364,15 +364,15 @@ void Driver::setup_solver_vars(T& a_solver,
     // set the start and ending times
     double t_end = this->SimulationParamaters.solver_inputs[solver_id].time_end;  // default is t=0
     if(solver_id==0){
-        a_solver->time_start = 0.0;
+        a_solver->time_start = this->SimulationParamaters.dynamic_options.time_initial;
 
         if(t_end <= 1.0e-14){
             // time wasn't set so end the solver at the final time of the calculation
-            a_solver->time_end = fmax(0.0, time_final);
+            a_solver->time_end = time_final;
         }
         else {
             // use the specified time in the input file
-            a_solver->time_end = t_end;
+            a_solver->time_end = fmin(t_end, time_final); // ensure t_end is bounded by final time
         } // end if time was set
     }
     else {
@@ -392,6 +392,9 @@ void Driver::setup_solver_vars(T& a_solver,
         
     } // end if solver=0
 
+    // a solver never ends before it starts
+    a_solver->time_end = fmax(a_solver->time_start, a_solver->time_end);
+
     std::cout << "Solver " << solver_id << " start time = " << a_solver->time_start << ", ending time = " << a_solver->time_end << "\n";
 
     return;
-- 
2.43.0


From cdfe9c5b68eb4d5786752521dd99af804f235ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 44/55] fix: velocity conditions act on the velocity along
 their direction

---
 .../boundary_conditions/velocity/piston_velocity_bc.hpp   | 8 +++++++-
 .../velocity/reflected_velocity_bc.hpp                    | 8 +++++++-
 .../velocity/time_varying_velocity_bc.hpp                 | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
index 54b0e39..9ec99cf 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/piston_velocity_bc.hpp
@@ -116,10 +116,16 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // the velocity in the specified direction
+        double vel_normal = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_normal += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
             //  direction normal = vel_bc_global_vars(bdy_set,dim)/mag
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim) * (vel_bc_global_vars(bdy_set,dim)/mag);
+            node_vel(bdy_node_gid, dim) -= vel_normal*vel_bc_global_vars(bdy_set,dim)/mag;
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel * (vel_bc_global_vars(bdy_set,dim)/mag);
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
index 5657d8a..34de25b 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/reflected_velocity_bc.hpp
@@ -75,9 +75,15 @@ static void velocity(const swage::Mesh& mesh,
         mag += vel_bc_global_vars(bdy_set,dim)*vel_bc_global_vars(bdy_set,dim);
     } // will make sure it's a unit vector
 
+    // the velocity in the specified direction
+    double vel_normal = 0.0;
+    for (size_t dim = 0; dim<mesh.num_dims; dim++){
+        vel_normal += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim);
+    }
+
     // Remove the velocity in the specified direction
     for (size_t dim = 0; dim<mesh.num_dims; dim++){
-        node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        node_vel(bdy_node_gid, dim) -= vel_normal*vel_bc_global_vars(bdy_set,dim)/mag;
     }
 
     return;
diff --git a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
index 50dd6e1..b6adf27 100644
--- a/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
+++ b/apps/multiphysics/src/boundary_conditions/velocity/time_varying_velocity_bc.hpp
@@ -114,9 +114,15 @@ static void velocity(const swage::Mesh& mesh,
         } // will make sure it's a unit vector
         mag = sqrt(mag);
 
+        // the velocity in the specified direction
+        double vel_normal = 0.0;
+        for (size_t dim = 0; dim<mesh.num_dims; dim++){
+            vel_normal += node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+        }
+
         for (size_t dim = 0; dim<mesh.num_dims; dim++){
             // remove the velocity in the specified direction
-            node_vel(bdy_node_gid, dim) -= node_vel(bdy_node_gid, dim)*vel_bc_global_vars(bdy_set,dim)/mag;
+            node_vel(bdy_node_gid, dim) -= vel_normal*vel_bc_global_vars(bdy_set,dim)/mag;
 
             // add the desired velocity in the specified direction
             node_vel(bdy_node_gid, dim) += vel*vel_bc_global_vars(bdy_set,dim)/mag;
-- 
2.43.0


From 62ae10ba8e327c6e7cd3a4872317b6ed234daaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 45/55] fix: temperature conditions of one solver do not act on
 another

---
 .../Solvers/SGTM_solver_3D/src/boundary.cpp   | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
index 86895c9..8b7fe55 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/boundary.cpp
@@ -53,9 +53,12 @@ void SGTM3D::boundary_temperature(const swage::Mesh& mesh,
                                   DCArrayKokkos<double>& node_temp,
                                   const double time_value) const
 {
-    // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
-        
+    // ---- Loop over the temperature boundary sets of this solver ---- //
+    size_t num_temperature_bdy_sets = BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id);
+    for (size_t bc_lid = 0; bc_lid < num_temperature_bdy_sets; bc_lid++) {
+
+        size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
+
         // ---- Skip non temperature BCs ---- //
         if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::constantTemperatureBC) continue;
 
@@ -105,9 +108,12 @@ void SGTM3D::boundary_convection(const swage::Mesh& mesh,
                                  const DCArrayKokkos<double>& node_coords,
                                  const double time_value) const
 {
-    // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
-        
+    // ---- Loop over the temperature boundary sets of this solver ---- //
+    size_t num_temperature_bdy_sets = BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id);
+    for (size_t bc_lid = 0; bc_lid < num_temperature_bdy_sets; bc_lid++) {
+
+        size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
+
         // ---- Skip non convection BCs ---- //
         if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::convectionTemperatureBC) continue;
 
@@ -245,9 +251,12 @@ void SGTM3D::boundary_radiation(const swage::Mesh& mesh,
                                 const DCArrayKokkos<double>& node_coords,
                                 const double time_value) const
 {
-    // ---- Loop over boundary sets ---- //
-    for (size_t bdy_set = 0; bdy_set < mesh.num_bdy_sets; bdy_set++) {
-        
+    // ---- Loop over the temperature boundary sets of this solver ---- //
+    size_t num_temperature_bdy_sets = BoundaryConditions.num_temperature_bdy_sets_in_solver.host(this->solver_id);
+    for (size_t bc_lid = 0; bc_lid < num_temperature_bdy_sets; bc_lid++) {
+
+        size_t bdy_set = BoundaryConditions.temperature_bdy_sets_in_solver.host(this->solver_id, bc_lid);
+
         // ---- Skip non radiation BCs ---- // 
          if (BoundaryConditions.BoundaryConditionEnums.host(bdy_set).BCTemperatureModel != boundary_conditions::BCTemperatureModels::radiationTemperatureBC) continue;
 
-- 
2.43.0


From 155d336f274dcbfd64958ad45c6818e6ec67b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 46/55] fix: heat conduction in meshes of several materials

The gradient of a material point was stored at the index of the element,
the specific heat was that of the first material only, and the heat flow
of the last material in an element replaced that of the others.
---
 .../SGTM_solver_3D/include/sgtm_solver_3D.hpp |  3 +++
 .../Solvers/SGTM_solver_3D/src/heat_flux.cpp  | 14 ++++++--------
 .../SGTM_solver_3D/src/sgtm_execute.cpp       |  6 ++++++
 .../SGTM_solver_3D/src/temperature_sgtm.cpp   | 19 ++++++++++++++++++-
 .../src/common/include/mesh_io.hpp            |  6 +++---
 5 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
index 66a5bec..df3e376 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/include/sgtm_solver_3D.hpp
@@ -283,6 +283,8 @@ public:
             const DCArrayKokkos<double>& node_mass,
             const DCArrayKokkos<double>& node_q_transfer,
             const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+            const DRaggedRightArrayKokkos<double>& mat_pt_mass,
+            const MeshtoMaterialMap_t& MeshtoMaterialMaps,
             const double rk_alpha,
             const double dt) const;
 
@@ -296,6 +298,7 @@ public:
         const DRaggedRightArrayKokkos<double>& MaterialPoints_q_flux,
         const DRaggedRightArrayKokkos<double>& MaterialPoints_conductivity,
         const DRaggedRightArrayKokkos<double>& MaterialPoints_temp_grad,
+        const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
         const DCArrayKokkos<double>& corner_q_flux,
         const corners_in_mat_t corners_in_mat_elem,
         const DRaggedRightArrayKokkos<bool>&   MaterialPoints_eroded,
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
index cb896b2..befbcba 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/heat_flux.cpp
@@ -76,6 +76,7 @@ void SGTM3D::get_heat_flux(
     const DRaggedRightArrayKokkos<double>& MaterialPoints_q_flux,
     const DRaggedRightArrayKokkos<double>& MaterialPoints_conductivity,
     const DRaggedRightArrayKokkos<double>& MaterialPoints_temp_grad,
+    const DRaggedRightArrayKokkos<double>& MaterialPoints_volfrac,
     const DCArrayKokkos<double>& corner_q_transfer,
     const corners_in_mat_t corners_in_mat_elem,
     const DRaggedRightArrayKokkos<bool>&   MaterialPoints_eroded,
@@ -153,9 +154,9 @@ void SGTM3D::get_heat_flux(
         }
 
         // ---- Save the temperature gradient to the material point for writing out ---- //
-        MaterialPoints_temp_grad(mat_id, elem_gid, 0) = temp_grad(0);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 1) = temp_grad(1);
-        MaterialPoints_temp_grad(mat_id, elem_gid, 2) = temp_grad(2);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 0) = temp_grad(0);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 1) = temp_grad(1);
+        MaterialPoints_temp_grad(mat_id, mat_point_sid, 2) = temp_grad(2);
 
         // ---- Calculate the heat flux at the material point ---- //
         double conductivity = MaterialPoints_conductivity(mat_id, mat_point_sid); // NOTE: Consider moving this to properties and evaluate instead of save
@@ -174,12 +175,9 @@ void SGTM3D::get_heat_flux(
             // Get the material corner lid
             size_t mat_corner_lid = corners_in_mat_elem(mat_elem_sid, corner_lid);
 
-            // Zero out flux at material corners
-            corner_q_transfer(corner_gid) = 0.0;
-
-            // Dot the flux into the corner normal
+            // Dot the flux into the corner normal, each material adds its share (the corners are zeroed before the loop over materials)
             for(int dim = 0; dim < mesh.num_dims; dim++){
-                corner_q_transfer(corner_gid) += MaterialPoints_q_flux(mat_id, mat_point_sid, dim) * (1.0*b_matrix(node_lid, dim));
+                corner_q_transfer(corner_gid) += MaterialPoints_volfrac(mat_id, mat_point_sid) * MaterialPoints_q_flux(mat_id, mat_point_sid, dim) * (1.0*b_matrix(node_lid, dim));
             }
         }
     }); // end parallel for loop over elements associated with the given material
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
index 38e1dcb..9d3426b 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/sgtm_execute.cpp
@@ -262,6 +262,9 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                 State.node.q_transfer(node_gid) = 0.0;
             }); // end for parallel for over nodes
 
+            // ---- Initialize the corner flux to zero, the materials of an element add to it ---- //
+            State.corner.q_transfer.set_values(0.0);
+
             // ---- Calculate the corner heat flux from conduction per material ---- //
             for(size_t mat_id = 0; mat_id < num_mats; mat_id++){
 
@@ -274,6 +277,7 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                     State.MaterialPoints.q_flux,
                     State.MaterialPoints.conductivity,
                     State.MaterialPoints.temp_grad,
+                    State.MaterialPoints.volfrac,
                     State.corner.q_transfer,
                     State.corners_in_mat_elem,
                     State.MaterialPoints.eroded,
@@ -331,6 +335,8 @@ void SGTM3D::execute(SimulationParameters_t& SimulationParamaters,
                 State.node.mass,
                 State.node.q_transfer,
                 State.MaterialPoints.specific_heat, // Note: Need to make this a node field, and calculate in the material loop
+                State.MaterialPoints.mass,
+                State.MeshtoMaterialMaps,
                 rk_alpha,
                 dt);
 
diff --git a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
index 7a1a626..dcfcf00 100644
--- a/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
+++ b/apps/multiphysics/src/Solvers/SGTM_solver_3D/src/temperature_sgtm.cpp
@@ -58,6 +58,8 @@ void SGTM3D::update_temperature(
     const DCArrayKokkos<double>& node_mass,
     const DCArrayKokkos<double>& node_q_transfer,
     const DRaggedRightArrayKokkos<double>& mat_pt_specific_heat,
+    const DRaggedRightArrayKokkos<double>& mat_pt_mass,
+    const MeshtoMaterialMap_t& MeshtoMaterialMaps,
     const double rk_alpha,
     const double dt) const
 {
@@ -75,10 +77,25 @@ void SGTM3D::update_temperature(
 
         // ---- Calculate the average specific heat for all materials surrounding a node ---- //
         double Cp = 0.0;
+        size_t num_filled_elems = 0;
         for(int elem_lid = 0; elem_lid < mesh.num_corners_in_node(node_gid); elem_lid++){ // NOTE: num_corners_in_node = num_elems_in_node
             size_t elem_gid = mesh.elems_in_node(node_gid, elem_lid);
-            Cp += mat_pt_specific_heat(0,elem_gid)/mesh.num_corners_in_node(node_gid);
+
+            // the specific heat of the element is the mass average over its materials
+            double elem_heat = 0.0;
+            double elem_mass = 0.0;
+            for(size_t mat_lid = 0; mat_lid < MeshtoMaterialMaps.num_mats_in_elem(elem_gid); mat_lid++){
+                size_t mat_id = MeshtoMaterialMaps.mats_in_elem(elem_gid, mat_lid);
+                size_t mat_elem_sid = MeshtoMaterialMaps.mat_elems_in_elem(elem_gid, mat_lid);
+                elem_heat += mat_pt_mass(mat_id, mat_elem_sid) * mat_pt_specific_heat(mat_id, mat_elem_sid);
+                elem_mass += mat_pt_mass(mat_id, mat_elem_sid);
+            }
+            if(elem_mass > 0.0){
+                Cp += elem_heat/elem_mass;
+                num_filled_elems++;
+            }
         }
+        Cp /= (double)num_filled_elems;
 
         // std::cout << "Cp*mass = " << Cp * node_mass(node_gid) << std::endl;
 
diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index b0ecac9..cc4131a 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -3442,9 +3442,9 @@ public:
                 elem_fields(elem_gid, 7) = (double)mat_id;
                 // 8 is the e_switch
                 elem_fields(elem_gid, 9) = (double)State.MaterialPoints.eroded.host(mat_id, mat_elem_sid);
-                elem_fields(elem_gid, 10) = (double)State.MaterialPoints.temp_grad.host(mat_id, elem_gid,0);
-                elem_fields(elem_gid, 11) = (double)State.MaterialPoints.temp_grad.host(mat_id, elem_gid,1);
-                elem_fields(elem_gid, 12) = (double)State.MaterialPoints.temp_grad.host(mat_id, elem_gid,2);
+                elem_fields(elem_gid, 10) = (double)State.MaterialPoints.temp_grad.host(mat_id, mat_elem_sid,0);
+                elem_fields(elem_gid, 11) = (double)State.MaterialPoints.temp_grad.host(mat_id, mat_elem_sid,1);
+                elem_fields(elem_gid, 12) = (double)State.MaterialPoints.temp_grad.host(mat_id, mat_elem_sid,2);
             } // end for mat elems storage
         } // end parallel loop over materials
 
-- 
2.43.0


From 32e33f47a20db18f07b440e479cc676c45410f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 47/55] fix: the documented dissipation model no_dissipation
 was refused

---
 apps/multiphysics/src/input/parse_material_inputs.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/apps/multiphysics/src/input/parse_material_inputs.cpp b/apps/multiphysics/src/input/parse_material_inputs.cpp
index 2bb7d06..6b3fca8 100644
--- a/apps/multiphysics/src/input/parse_material_inputs.cpp
+++ b/apps/multiphysics/src/input/parse_material_inputs.cpp
@@ -610,6 +610,15 @@ void parse_materials(Yaml::Node& root, Material_t& Materials, const size_t num_d
 
                     // dissipation_model_map[dissipation_model] returns enum value, e.g., model::dissipation
                     switch(dissipation_model_map[dissipation_model]){
+                        case model::noDissipation:
+
+                            Materials.MaterialEnums.host(mat_id).DissipationModels = model::noDissipation;
+                            RUN({
+                                Materials.MaterialEnums(mat_id).DissipationModels = model::noDissipation;
+                                Materials.MaterialFunctions(mat_id).calc_dissipation = &NoDissipationModel::calc_dissipation;
+                            });
+                            break;
+                        //
                         case model::MARS:
                             
                             if(num_dims == 2){
-- 
2.43.0


From dc932cfc6575a81ee0177f5394337e5172f4b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 48/55] fix: refuse points and extents that are no list of 2 or
 3 values

exact_array_values erased the first and last character whatever they were,
and its callers read two values whatever it found: an origin that was empty
or written as a block list crashed the program.
---
 apps/multiphysics/src/common/include/string_utils.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/apps/multiphysics/src/common/include/string_utils.hpp b/apps/multiphysics/src/common/include/string_utils.hpp
index ce44f1d..b2e5220 100644
--- a/apps/multiphysics/src/common/include/string_utils.hpp
+++ b/apps/multiphysics/src/common/include/string_utils.hpp
@@ -34,6 +34,7 @@ ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #ifndef STRING_UTILITIES_H
 #define STRING_UTILITIES_H
 
+#include <stdexcept>
 #include <string>
 
 const std::string WHITESPACE = " ";
@@ -84,6 +85,11 @@ inline std::vector<std::string> exact_array_values(std::string s, std::string de
     std::string token;
     std::vector<std::string> res;
 
+    // the text must be an inline list, [x, y] or [x, y, z]
+    if (s.size() < 2 || s.front() != '[' || s.back() != ']') {
+        throw std::runtime_error("**** Expected values as [x, y] or [x, y, z], but found: " + s + " ****");
+    }
+
     // remove first and last char in the string, which are [ and ]
     s.erase(s.begin());
     s.erase(s.end() - 1);
@@ -96,6 +102,11 @@ inline std::vector<std::string> exact_array_values(std::string s, std::string de
     }
 
     res.push_back(s.substr(pos_start));
+
+    if (res.size() < 2 || res.size() > 3) {
+        throw std::runtime_error("**** Expected values as [x, y] or [x, y, z], but found: [" + s + "] ****");
+    }
+
     return res;
 } // end of extract_array_values
 
-- 
2.43.0


From e6d7d8d9062731ed6b2af417b9f0788d94f5e10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 49/55] fix: write the z coordinate of every node to the node
 coords field

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index cc4131a..cc84e79 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -4093,7 +4093,7 @@ public:
                             node_vector_fields(node_coord_id, node_gid, 2) = 0.0;
                         }
                         else{
-                            node_vector_fields(node_coord_id, node_coord_id, 2) = Node.coords(node_gid, 2);
+                            node_vector_fields(node_coord_id, node_gid, 2) = Node.coords(node_gid, 2);
                         } // end if
 
                     }); // end parallel for
-- 
2.43.0


From e66d7158c1dc34baa95222a4ed29b1028227dc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:07 +0000
Subject: [PATCH 50/55] fix: list the files of the materials that are on the
 mesh in the vtm file

---
 apps/multiphysics/src/common/include/mesh_io.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/apps/multiphysics/src/common/include/mesh_io.hpp b/apps/multiphysics/src/common/include/mesh_io.hpp
index cc84e79..8c58209 100644
--- a/apps/multiphysics/src/common/include/mesh_io.hpp
+++ b/apps/multiphysics/src/common/include/mesh_io.hpp
@@ -2708,7 +2708,7 @@ public:
 
 
             // note: the file path and folder was created in the elem and node outputs
-            size_t num_mat_files_written = 0;
+            std::vector<int> mats_written; // ids of the materials with a file, those on the mesh
             if(num_mat_pt_scalar_vars > 0 || num_mat_pt_tensor_vars >0){
 
                 for (int mat_id = 0; mat_id < num_mats; mat_id++) {
@@ -2798,7 +2798,7 @@ public:
                                   solver_id);
 
 
-                        num_mat_files_written++;
+                        mats_written.push_back(mat_id);
 
                     } // end for mat_id
 
@@ -2839,7 +2839,7 @@ public:
                       mat_fields_name,
                       time_value,
                       graphics_id,
-                      num_mat_files_written,
+                      mats_written,
                       write_mesh_state,
                       write_mat_pt_state,
                       solver_id);
@@ -4493,6 +4493,7 @@ public:
     /// \param element average field names
     /// \param current time value
     /// \param graphics index
+    /// \param ids of the materials that have a file
     ///
     /////////////////////////////////////////////////////////////////////////////
     void write_vtm(CArray<double>& graphics_times,
@@ -4500,7 +4501,7 @@ public:
                    const  std::string& mat_part_name,
                    double time_value,
                    int graphics_id,
-                   int num_mats,
+                   const std::vector<int>& mats_written,
                    bool write_mesh_state,
                    bool write_mat_pt_state,
                    const size_t solver_id)
@@ -4548,10 +4549,12 @@ public:
             // note: the block_id was incremented if an element average field output was made
             if (write_mat_pt_state){
                 fprintf(out[0], "    <Block index=\"%zu\" name=\"Mat\">\n", block_id);
-                for (size_t mat_id=0; mat_id<num_mats; mat_id++){
+                for (size_t piece_id=0; piece_id<mats_written.size(); piece_id++){
+
+                    const size_t mat_id = mats_written[piece_id];
                     
                     // output the material specific fields
-                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", mat_id, mat_id);
+                    fprintf(out[0], "      <Piece index=\"%zu\" name=\"Mat%zu\">\n", piece_id, mat_id);
                     fprintf(out[0], "        <DataSet timestep=\"%d\" file=\"Fierro.solver%zu.%s%zu.%05d.vtu\" time= \"%12.5e\" />\n", 
                                                                file_id, solver_id, mat_part_name.c_str(), mat_id, file_id, graphics_times(file_id) );
                     fprintf(out[0], "      </Piece>\n");
-- 
2.43.0


From 1dd5eb73f79e68858614439469b3b5c306245228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 51/55] fix: the acceleration written with an initial velocity

---
 apps/multiphysics/src/common/src/region_fill.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/apps/multiphysics/src/common/src/region_fill.cpp b/apps/multiphysics/src/common/src/region_fill.cpp
index 4dc6764..bdebb34 100644
--- a/apps/multiphysics/src/common/src/region_fill.cpp
+++ b/apps/multiphysics/src/common/src/region_fill.cpp
@@ -129,6 +129,16 @@ void simulation_setup(SimulationParameters_t& SimulationParamaters,
     // note: the device and host side are updated in the above function
     // ---------------------------------------------
 
+    // the old velocity is the initial one, so that nodes are not said to accelerate before they do
+    if (State.node.vel_n0.size() > 0) {
+        for (size_t node_gid = 0; node_gid < num_nodes; node_gid++) {
+            for (size_t dim = 0; dim < num_dims; dim++) {
+                State.node.vel_n0.host(node_gid, dim) = State.node.vel.host(node_gid, dim);
+            }
+        }
+        State.node.vel_n0.update_device();
+    }
+
     // ----------------------------------------------------------------
     //  Walk over the mesh and find dimensions of material storage arrays
     // ----------------------------------------------------------------
-- 
2.43.0


From 903f8ad059e6a8ce0ff6dc4b5d3925f713d2d0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 52/55] fix: material that is gone leaves the forces of the
 other materials of its element alone

---
 apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp    | 1 -
 apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp | 1 -
 2 files changed, 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
index 79391ed..e66c77f 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_3D/src/force_sgh.cpp
@@ -210,7 +210,6 @@ void SGH3D::get_force(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { // material(mat_id).blank_mat_id)
                 for (size_t dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
diff --git a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
index 55583c2..acbf973 100644
--- a/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
+++ b/apps/multiphysics/src/Solvers/SGH_solver_rz/src/force_sgh_rz.cpp
@@ -217,7 +217,6 @@ void SGHRZ::get_force_rz(const Material_t& Materials,
             // loop over dimensions and calc corner forces
             if (MaterialPoints_eroded(mat_id, mat_point_sid) == true) { 
                 for (int dim = 0; dim < num_dims; dim++) {
-                    corner_force(corner_gid, dim) = 0.0;
                     MaterialCorners_force(mat_id, mat_corner_lid, dim) = 0.0;
                 }
             }
-- 
2.43.0


From 92ef3cfd5c9453d2bdd1e54b6dbbf76884b02772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 53/55] fix: fronts that move backwards also limit the step of
 the level set solver

---
 .../src/Solvers/level_set_solver/src/time_integration.cpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
index a276584..6fbe55a 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/time_integration.cpp
@@ -171,7 +171,7 @@ void LevelSet::get_timestep(
         const double curvature_velocity = Materials.MaterialFunctions(mat_id).curvature_velocity;
         
         double kappa = 1.0/(3.0*dist_min); // max curvature is around 3 DeltaX, curvature = 1/R
-        double front_velocity = 1.5+normal_velocity + curvature_velocity*kappa;
+        double front_velocity = 1.5 + fabs(normal_velocity) + fabs(curvature_velocity*kappa);
         // the 1.5 is for redistancing velocity that has a value around 1.0, so using 1.5
 
         // local dt calc based on CFL
@@ -284,7 +284,7 @@ void LevelSet::get_timestep_2D(
         const double curvature_velocity = Materials.MaterialFunctions(mat_id).curvature_velocity;
 
         double kappa = 1.0/(3.0*dist_min); // max curvature is around 3 DeltaX, curvature = 1/R
-        double front_velocity = 1.5+normal_velocity + curvature_velocity*kappa;
+        double front_velocity = 1.5 + fabs(normal_velocity) + fabs(curvature_velocity*kappa);
         // the 1.5 is for redistancing velocity that has a value around 1.0, so using 1.5
 
         // local dt calc based on CFL
-- 
2.43.0


From 15f94a0b73be78a9475d013d155e2236cff7a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 54/55] fix: the level set gradient of a node had the wrong
 sign

---
 .../src/Solvers/level_set_solver/src/solver_functions.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index 23a4078..450242f 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -109,7 +109,7 @@ void LevelSet::nodal_gradient(
 
             // save the corner normal (inward pointing from the element)
             for (size_t dim = 0; dim < mesh.num_dims; dim++) {
-                corner_normal(corner_gid, dim) = area_normal(corner_lid, dim);
+                corner_normal(corner_gid, dim) = -area_normal(corner_lid, dim);
             } // end loop over dimension
 
             // save the corner volume
-- 
2.43.0


From 349c0fbace31174858499f3cb670830d0a8b8f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 55/55] fix: the length over which 2D level sets are smoothed
 is that of the element, wherever it is

---
 .../Solvers/level_set_solver/include/level_set_solver.hpp | 1 +
 .../Solvers/level_set_solver/src/level_set_execute.cpp    | 1 +
 .../src/Solvers/level_set_solver/src/solver_functions.cpp | 8 +++++++-
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp b/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
index a4e8386..e37d418 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/include/level_set_solver.hpp
@@ -196,6 +196,7 @@ public:
             const DCArrayKokkos<double>& GaussPoints_level_set_n,
             const DCArrayKokkos<double>& GaussPoints_vol,
             const DCArrayKokkos<double>& Corner_normal,
+            const DCArrayKokkos<double>& Corner_volume,
             const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
             const size_t num_mat_elems,
             const size_t mat_id,
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
index 4939c46..4f269fc 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/level_set_execute.cpp
@@ -283,6 +283,7 @@ void LevelSet::execute(SimulationParameters_t& SimulationParamaters,
                         State.GaussPoints.level_set_n0,
                         State.GaussPoints.vol,
                         State.corner.normal,
+                        State.corner.volume,
                         State.MaterialToMeshMaps.elem_in_mat_elem,
                         State.MaterialToMeshMaps.num_mat_elems.host(mat_id),
                         mat_id,
diff --git a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
index 450242f..201e89f 100644
--- a/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
+++ b/apps/multiphysics/src/Solvers/level_set_solver/src/solver_functions.cpp
@@ -207,6 +207,7 @@ void LevelSet::update_level_set(
     const DCArrayKokkos<double>& GaussPoints_level_set_n0,
     const DCArrayKokkos<double>& GaussPoints_vol,
     const DCArrayKokkos<double>& corner_normal,
+    const DCArrayKokkos<double>& corner_volume,
     const DRaggedRightArrayKokkos<size_t>& elem_in_mat_elem,
     const size_t num_mat_elems,
     const size_t mat_id,
@@ -239,7 +240,12 @@ void LevelSet::update_level_set(
             deltaX = 2.0*cbrt(GaussPoints_vol(gauss_point)); // length scale for smoothing signum function
         }
         else {
-            deltaX = 2.0*sqrt(GaussPoints_vol(gauss_point));
+            // the facial area of the quad, the volume in 2D is that of the revolved quad
+            double elem_area = 0.0;
+            for (size_t node_lid = 0; node_lid < mesh.num_nodes_in_elem; node_lid++) {
+                elem_area += corner_volume(mesh.corners_in_elem(elem_gid, node_lid));
+            } // end for node_lid
+            deltaX = 2.0*sqrt(elem_area);
         }
         const double signum = GaussPoints_level_set(gauss_point)/( sqrt(GaussPoints_level_set(gauss_point)*GaussPoints_level_set(gauss_point) + deltaX*deltaX));
 
-- 
2.43.0

