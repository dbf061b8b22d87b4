From eb0818889fd97188af8407780f44930f4f92c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 01/57] fix: link the successor back to an entry inserted
 before it

---
 lib/include/spvgentwo/Entry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index eed12eb..6d8f75f 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -167,7 +167,8 @@ namespace spvgentwo
 
 		entry->m_pPrev = m_pPrev;
 		entry->m_pNext = this;
-		
+		m_pPrev = entry;
+
 		return entry;
 	}
 
-- 
2.43.0


From a47079054e97195c4eabc0d38409041da08851e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:54 +0000
Subject: [PATCH 02/57] fix: unlink surplus entries on list copy assignment

---
 lib/include/spvgentwo/List.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a8339bf..fd3b98a 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -182,9 +182,9 @@ namespace spvgentwo
 		}
 
 		// left side was longer, destroy rest
-		if(l != le)
+		while (m_Elements > _other.m_Elements)
 		{
-			l.entry()->destroyList(m_pAllocator);
+			erase(last());
 		}
 
 		// right side was longer, emplace
-- 
2.43.0


From 477beca15502aaecac947646966fcf62c8755278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 03/57] fix: leave a list unchanged when allocating an entry
 fails

---
 lib/include/spvgentwo/List.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index fd3b98a..056c6b0 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -238,6 +238,8 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::prepend_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr) return nullptr;
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
@@ -254,6 +256,8 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::append_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr) return nullptr;
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
@@ -299,8 +303,10 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_before(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
 		Entry<T>* entry = _pos.entry()->insertBefore(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr) return nullptr;
+
+		++m_Elements;
 		if (_pos.entry() == m_pBegin)
 		{
 			m_pBegin = entry;
@@ -312,8 +318,10 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_after(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
 		Entry<T>* entry = _pos.entry()->insertAfter(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr) return nullptr;
+
+		++m_Elements;
 		if (_pos.entry() == m_pLast)
 		{
 			m_pLast = entry;
-- 
2.43.0


From 403560a1223910038d20ed297fb7cdc66c748e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:51 +0000
Subject: [PATCH 04/57] fix: Vector::resize sets the requested size, not the
 capacity

---
 lib/include/spvgentwo/Vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d09c989..036c593 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -263,7 +263,7 @@ namespace spvgentwo
 	template<class U>
 	inline bool Vector<U>::resize(sgt_size_t _size, const T* _pInitValue)
 	{
-		if ( _size > m_capacity )
+		if ( _size > m_elements ) // grow
 		{
 			if ( reserve(_size) == false )
 			{
@@ -272,14 +272,14 @@ namespace spvgentwo
 
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{};
 				}
 			}
 			else if constexpr ( stdrep::is_copy_constructible_v<T> )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{ *_pInitValue };
 				}
@@ -294,7 +294,7 @@ namespace spvgentwo
 			}
 		}
 
-		m_elements = m_capacity;
+		m_elements = _size;
 
 		return true;
 	}
-- 
2.43.0


From cbeed185a3df24d236bd88d49dedbaa875819395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:54 +0000
Subject: [PATCH 05/57] fix: Vector::assign clamps the count without overflow

---
 lib/include/spvgentwo/Vector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 036c593..aeb99ae 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -314,7 +314,12 @@ namespace spvgentwo
 	template<class U>
 	inline void Vector<U>::assign(const T& _data, sgt_size_t _pos, sgt_size_t _count)
 	{
-		if ( _pos + _count > m_elements )
+		if ( _pos >= m_elements )
+		{
+			return;
+		}
+
+		if ( _count > m_elements - _pos )
 		{
 			_count = m_elements - _pos;
 		}
-- 
2.43.0


From 8a200dfe7a121a94e749ade7a8ea578f4bee58b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 06/57] fix: Vector::insert keeps the tail and stays in bounds

---
 lib/include/spvgentwo/Vector.h | 41 +++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index aeb99ae..c3a612f 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -349,25 +349,41 @@ namespace spvgentwo
 		{
 			auto remainder = m_elements - _pos;
 
-			// move-construct last remainder elements to reserved but un-initialized data at the end
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
+			// move last remainder elements back by _count, starting with the last one since source and destination may overlap
+			for ( sgt_size_t i = remainder; i > 0u; --i )
 			{
-				traits::constructWithArgs(m_pData + _pos + _count + i, stdrep::move(m_pData[_pos + i]));
-			}
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
-			{
-				m_pData[_pos + i] = _pData[i];
+				const sgt_size_t from = _pos + i - 1u;
+				const sgt_size_t to = from + _count;
+				if ( to < m_elements )
+				{
+					m_pData[to] = stdrep::move(m_pData[from]);
+				}
+				else // reserved but un-initialized data at the end
+				{
+					traits::constructWithArgs(m_pData + to, stdrep::move(m_pData[from]));
+				}
 			}
-			auto rest = _count - remainder;
-			for ( sgt_size_t i = 0u; i < rest; ++i )
+			for ( sgt_size_t i = 0u; i < _count; ++i )
 			{
-				traits::constructWithArgs(m_pData + m_elements + i, stdrep::move(_pData[remainder + i]));
+				if ( _pos + i < m_elements )
+				{
+					m_pData[_pos + i] = _pData[i];
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + _pos + i, _pData[i]);
+				}
 			}
 
 			m_elements += _count;
 		}
 		else
 		{
+			if ( m_pAllocator == nullptr )
+			{
+				return nullptr;
+			}
+
 			const auto newSize = m_elements + _count;
 			const auto newCapacity = newSize + (newSize >> 2); // grow by 1.25
 
@@ -397,6 +413,11 @@ namespace spvgentwo
 
 			if ( m_pData != nullptr )
 			{
+				// free old data
+				for ( sgt_size_t i = 0u; i < m_elements; ++i )
+				{
+					m_pData[i].~T();
+				}
 				m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 			}
 
-- 
2.43.0


From 1614f13e75b3021ad03f3f9ca22f14186f9fdd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:41 +0000
Subject: [PATCH 07/57] fix: a failed allocation leaves ExternalMemoryAllocator
 usable

---
 common/source/ExternalMemoryAllocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/ExternalMemoryAllocator.cpp b/common/source/ExternalMemoryAllocator.cpp
index 362e370..edc5a12 100644
--- a/common/source/ExternalMemoryAllocator.cpp
+++ b/common/source/ExternalMemoryAllocator.cpp
@@ -4,7 +4,10 @@ void* spvgentwo::ExternalMemoryAllocator::allocate(sgt_size_t _bytes, unsigned i
 {
 	const auto capacity = static_cast<sgt_size_t>(static_cast<const char*>(m_pEnd) - static_cast<const char*>(m_pCurrent));
 	void* ptr = alignPowerOf2(_aligment, _bytes, m_pCurrent, capacity);
-	m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	if (ptr != nullptr) // keep the current position if the allocation does not fit
+	{
+		m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	}
 	return ptr;
 }
 
-- 
2.43.0


From 81873babbd387541dc0831e9439276be952afde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 08/57] fix: a String made from part of a text is terminated

---
 lib/include/spvgentwo/String.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 6578866..45aef3a 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -45,7 +45,14 @@ namespace spvgentwo
 
 		constexpr String(String&& _other) noexcept : Vector(stdrep::move(_other)) {}
 
-		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) {};
+		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length)
+		{
+			// a part of _pStr is not terminated
+			if (m_elements != 0u && m_pData[m_elements - 1u] != '\0' && Vector::emplace_back('\0') == nullptr)
+			{
+				m_elements = 0u;
+			}
+		}
 
 		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
-- 
2.43.0


From 9fe428c45bca6ba95c6484b80f66c224062b781b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 09/57] fix: String::substr stays inside the characters

---
 lib/source/String.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0452f5b..60863d9 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -19,7 +19,13 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
-	const sgt_size_t available = m_elements - _offset;
+	const sgt_size_t available = _offset < size() ? size() - _offset : 0u;
+
+	if (available == 0u || _length == 0u)
+	{
+		return String(m_pAllocator, "");
+	}
+
 	return String(m_pAllocator, m_pData+_offset, _length > available ? available : _length);
 }
 
-- 
2.43.0


From d137d49de0a4c67da7c750c5f17aa10819b4dfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 10/57] fix: String += keeps the terminator for empty and self
 operands

---
 lib/source/String.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 60863d9..79c4f76 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -47,14 +47,16 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
-	if (reserve(m_elements + _other.m_elements))
+	if (_other.m_elements != 0u && reserve(m_elements + _other.m_elements))
 	{
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
-		for (sgt_size_t i = 0; i < _other.m_elements; ++i)
+		const sgt_size_t length = _other.size(); // _other might be *this
+		for (sgt_size_t i = 0; i < length; ++i)
 		{
 			m_pData[offset + i] = _other[i];
 		}
-		m_elements = offset + _other.m_elements;
+		m_elements = offset + length + 1u;
+		m_pData[m_elements - 1u] = '\0';
 	}
 	return *this;
 }
-- 
2.43.0


From a9cbc5ef15e824014d969314aa8296e73eb40197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 11/57] fix: String::append keeps the string terminated

---
 lib/source/String.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 79c4f76..3acf6b6 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -68,8 +68,13 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
+	if (_pStr == nullptr)
+	{
+		return *this; // nothing to append
+	}
+
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
-	if (reserve(m_elements + length))
+	if (reserve(m_elements + length + 1u))
 	{
 		// we only want one string terminator, overwrite the old one an append
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
@@ -78,6 +83,10 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 			m_pData[offset + i] = _pStr[i];
 		}
 		m_elements = offset + length;
+		if (m_pData[m_elements - 1u] != '\0')
+		{
+			m_pData[m_elements++] = '\0';
+		}
 	}
 	return *this;
 }
-- 
2.43.0


From b6de09a6bde4140119526edcfd0c147c8006ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 12/57] fix: compare strings by their characters

---
 lib/source/String.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 3acf6b6..8cd6185 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -93,9 +93,9 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 
 bool spvgentwo::String::operator==(const String& _other) const
 {
-	if (m_elements == _other.m_elements)
+	if (size() == _other.size())
 	{
-		for (sgt_size_t i = 0u; i < m_elements; ++i)
+		for (sgt_size_t i = 0u; i < size(); ++i)
 		{
 			if (m_pData[i] != _other.m_pData[i])
 				return false;
@@ -108,9 +108,9 @@ bool spvgentwo::String::operator==(const String& _other) const
 bool spvgentwo::String::operator==(const char* _pStr) const
 {
 	const sgt_size_t length = stringLength(_pStr);
-	if (m_elements == length)
+	if (size() == (length == 0u ? 0u : length - 1u))
 	{
-		for (sgt_size_t i = 0; i < m_elements; ++i)
+		for (sgt_size_t i = 0; i < size(); ++i)
 		{
 			if (m_pData[i] != _pStr[i])
 				return false;
-- 
2.43.0


From 1f4166abb7725bfb3c1166730884d8c09d4ca61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 13/57] fix: String::insert keeps terminator, returns a valid
 iterator

---
 lib/include/spvgentwo/String.h |  2 +-
 lib/source/String.cpp          | 16 +++++++++++++---
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 45aef3a..c54cdaf 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -85,7 +85,7 @@ namespace spvgentwo
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
 
-		Iterator insert(sgt_size_t _pos, const String& _str) { return Vector::insert(_pos, _str.data(), _str.size()); }
+		Iterator insert(sgt_size_t _pos, const String& _str) { return insert(_pos, _str.size() == 0u ? "" : _str.c_str(), _str.size()); }
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 8cd6185..500c1cc 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -122,12 +122,22 @@ bool spvgentwo::String::operator==(const char* _pStr) const
 
 spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length)
 {
-	auto ret = Vector::insert(_pos, _pCStr, _length == 0u ? (stringLength(_pCStr) - 1u) : _length);
+	if (_pos > size())
+	{
+		if (m_elements != 0u)
+		{
+			return nullptr; // don't insert behind the string terminator
+		}
+		_pos = 0u;
+	}
+
+	const sgt_size_t length = _length == 0u && _pCStr != nullptr ? (stringLength(_pCStr) - 1u) : _length;
+	const auto ret = Vector::insert(_pos, _pCStr, length);
 
 	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
 	{
-		// append string terminator if necessar
+		// append string terminator if necessary, this might reallocate
 		Vector::insert(m_elements, '\0');
 	}
-	return ret;
+	return ret == nullptr ? nullptr : m_pData + _pos;
 }
\ No newline at end of file
-- 
2.43.0


From 9108929fb1546dfe4709b49fb0392f96c80c2348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 14/57] fix: HashMap::findKey looks at the nodes of a bucket

---
 lib/include/spvgentwo/HashMap.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d29619f..6997438 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -323,14 +323,11 @@ namespace spvgentwo
 	{
 		for (auto i = 0u; i < m_Buckets; ++i)
 		{
-			for (Bucket& b : m_pBuckets[i])
+			for (Node& n : m_pBuckets[i])
 			{
-				for (Node& n : b)
+				if (n.kv.value == _value)
 				{
-					if (n.kv.value == _value)
-					{
-						return &n.kv.key;
-					}
+					return &n.kv.key;
 				}
 			}
 		}
-- 
2.43.0


From adb57094089b856a0d62f5d4e845ef822d0fd0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 15/57] fix: HashMap::eraseRange keeps the element count

---
 lib/include/spvgentwo/HashMap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 6997438..027b226 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -261,6 +261,7 @@ namespace spvgentwo
 			if (it->hash == h)
 			{
 				it = bucket.erase(it);
+				--m_Elements;
 				++keys;
 			}
 			else 
-- 
2.43.0


From a1c55e57d0ea95d128f77a0e2d49ec669577b59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 16/57] fix: HashMap keeps entries with equal hashes adjacent
 for getRange

---
 lib/include/spvgentwo/HashMap.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 027b226..2aab65d 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -348,23 +348,31 @@ namespace spvgentwo
 	template<class ...Args>
 	inline typename HashMap<Key, Value>::Node& HashMap<Key, Value>::emplace(const Key& _key, Args&& ..._args)
 	{
-		Entry<Node>* pNode = Entry<Node>::create(m_pAllocator, _key, stdrep::forward<Args>(_args)...);
-
-		Node& n = pNode->inner();
+		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
 		{
-			n.hash = _key;
+			h = _key;
 		}
 		else
 		{
-			n.hash = m_pHashFunc(_key);
+			h = m_pHashFunc(_key);
 		}
 
-		const auto index = n.hash % m_Buckets;
+		Bucket& bucket = m_pBuckets[h % m_Buckets];
+
+		// keep nodes with the same hash adjacent, getRange must not contain other nodes of this bucket
+		auto it = bucket.last();
+		while (it != nullptr && it->hash != h)
+		{
+			--it;
+		}
 
 		// append to chain
-		m_pBuckets[index].append_entry(pNode);
+		Entry<Node>* pNode = it == nullptr ? bucket.emplace_back_entry(_key, stdrep::forward<Args>(_args)...) : bucket.insert_after(it, _key, stdrep::forward<Args>(_args)...);
+
+		Node& n = pNode->inner();
+		n.hash = h;
 
 		++m_Elements;
 
-- 
2.43.0


From 3c4d507b470fa8463a4d2f1344c5cdbe0ded7d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:55 +0000
Subject: [PATCH 17/57] fix: lookups in a HashMap without buckets find nothing

---
 lib/include/spvgentwo/HashMap.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 2aab65d..821a6f4 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -187,6 +187,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline Value* HashMap<Key, Value>::get(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return nullptr;
+		}
+
 		const auto index = _hash % m_Buckets;
 
 		for (Node& n : m_pBuckets[index])
@@ -201,6 +206,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::TRange HashMap<Key, Value>::getRange(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return { nullptr , nullptr };
+		}
+
 		const auto index = _hash % m_Buckets;
 		const Bucket& bucket = m_pBuckets[index];
 
@@ -252,6 +262,12 @@ namespace spvgentwo
 		}
 
 		unsigned int keys = 0u;
+
+		if (m_Buckets == 0u)
+		{
+			return keys;
+		}
+
 		const auto index = h % m_Buckets;
 
 		Bucket& bucket = m_pBuckets[index];
@@ -277,6 +293,12 @@ namespace spvgentwo
 	inline unsigned int HashMap<Key, Value>::count(const Hash64 _hash) const
 	{
 		unsigned int keys = 0u;
+
+		if (m_Buckets == 0u)
+		{
+			return keys;
+		}
+
 		const auto index = _hash % m_Buckets;
 
 		for (const Node& n : m_pBuckets[index])
@@ -304,6 +326,11 @@ namespace spvgentwo
 			h = m_pHashFunc(_key);
 		}
 
+		if (m_Buckets == 0u)
+		{
+			return end();
+		}
+
 		const auto index = h % m_Buckets;
 
 		const Bucket& bucket = m_pBuckets[index];
-- 
2.43.0


From 86a3f733a0c0cd10a5e71b2065130056b0d7abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 18/57] fix: all SPIR-V termination instructions are
 terminators

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index f890847..20e88be 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -82,6 +82,10 @@ namespace spvgentwo
 		case spv::Op::OpReturnValue:
 		case spv::Op::OpKill:
 		case spv::Op::OpUnreachable:
+		case spv::Op::OpTerminateInvocation:
+		case spv::Op::OpIgnoreIntersectionKHR:
+		case spv::Op::OpTerminateRayKHR:
+		case spv::Op::OpEmitMeshTasksEXT:
 			return true;
 		default:
 			return false;
-- 
2.43.0


From 1e1ccfabdf84d933d8f474da8cec9c82ef920c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 19/57] fix: AMDX execution modes with id operands use
 OpExecutionModeId

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 20e88be..961b8fa 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -65,6 +65,10 @@ namespace spvgentwo
 		case spv::ExecutionMode::SubgroupsPerWorkgroupId:
 		case spv::ExecutionMode::LocalSizeId:
 		case spv::ExecutionMode::LocalSizeHintId:
+		case spv::ExecutionMode::MaxNodeRecursionAMDX:
+		case spv::ExecutionMode::StaticNumWorkgroupsAMDX:
+		case spv::ExecutionMode::ShaderIndexAMDX:
+		case spv::ExecutionMode::MaxNumWorkgroupsAMDX:
 			return spv::Op::OpExecutionModeId;
 		default:
 			return spv::Op::OpExecutionMode;
-- 
2.43.0


From 55568f68f50f32ca434b6d6353b3d3d14ad73b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:26 +0000
Subject: [PATCH 20/57] fix: an instruction whose word count does not fit is
 not written

---
 lib/source/Instruction.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5f888f3..a4ed84e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -315,6 +315,12 @@ bool spvgentwo::Instruction::isSpecOrConstant() const
 
 bool spvgentwo::Instruction::write(IWriter& _writer) const
 {
+	if (m_Elements >= (1u << (32u - spv::WordCountShift)) - 1u)
+	{
+		getModule()->logError("Word count %u of op [%u] does not fit into the instruction", getWordCount(), m_Operation);
+		return false;
+	}
+
 	if (_writer.put(getOpCode()) == false)
 		return false;
 
-- 
2.43.0


From 0c12caa11b49e28bcbebc9c8e7936a8cb2f293e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 21/57] fix: word writers report words they could not store

---
 common/include/common/BinaryFileWriter.h   |  3 ++-
 common/include/common/BinaryVectorWriter.h |  3 ++-
 common/source/BinaryFileWriter.cpp         | 17 ++++++++---------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/common/include/common/BinaryFileWriter.h b/common/include/common/BinaryFileWriter.h
index 2190b1c..c79ec3b 100644
--- a/common/include/common/BinaryFileWriter.h
+++ b/common/include/common/BinaryFileWriter.h
@@ -17,7 +17,8 @@ namespace spvgentwo
 		bool isOpen() const { return m_pFile != nullptr; }
 		operator bool() const { return m_pFile != nullptr; }
 
-		void close();
+		// returns true if a file was open and all words have been written to it
+		bool close();
 
 	private:
 		Vector<sgt_uint32_t> m_buffer;
diff --git a/common/include/common/BinaryVectorWriter.h b/common/include/common/BinaryVectorWriter.h
index a85d637..18d9eee 100644
--- a/common/include/common/BinaryVectorWriter.h
+++ b/common/include/common/BinaryVectorWriter.h
@@ -20,7 +20,8 @@ namespace spvgentwo
 	template<typename U32Vector>
 	inline bool BinaryVectorWriter<U32Vector>::put(unsigned int _word)
 	{
+		const auto count = m_vector.size();
 		m_vector.emplace_back(_word);
-		return true;
+		return m_vector.size() > count; // allocation may fail
 	}
 } //!spvgentwo
diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index b29e441..ef38122 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -14,8 +14,7 @@ spvgentwo::BinaryFileWriter::~BinaryFileWriter()
 
 bool spvgentwo::BinaryFileWriter::put(unsigned int _word)
 {
-	m_buffer.emplace_back(_word);
-	return true;
+	return m_buffer.emplace_back(_word) != nullptr;
 }
 
 bool spvgentwo::BinaryFileWriter::open(const char* _path)
@@ -38,17 +37,17 @@ bool spvgentwo::BinaryFileWriter::open(const char* _path)
 	return m_pFile != nullptr;
 }
 
-void spvgentwo::BinaryFileWriter::close()
+bool spvgentwo::BinaryFileWriter::close()
 {
+	bool success = false;
+
 	if (m_pFile != nullptr)
 	{
-		if (m_buffer.empty() == false)
-		{
-			fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile));
-		}
-
-		fclose(static_cast<FILE*>(m_pFile));
+		success = m_buffer.empty() || fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile)) == m_buffer.size();
+		success = fclose(static_cast<FILE*>(m_pFile)) == 0 && success; // flushes
 		m_pFile = nullptr;
 	}
 	m_buffer.clear();
+
+	return success;
 }
\ No newline at end of file
-- 
2.43.0


From 7a6e9555f6e5cab416894f15ff073ec5e3c9aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 22/57] fix: BinaryFileReader reads what follows the offset and
 nothing stale

---
 common/source/BinaryFileReader.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 16fa62a..90f9260 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -20,6 +20,9 @@ bool spvgentwo::BinaryFileReader::get(unsigned int& _word)
 
 bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sgt_size_t _length)
 {
+	m_buffer.clear();
+	m_pos = 0u;
+
 	if (_path == nullptr)
 	{
 		return false;
@@ -52,12 +55,18 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 
 	if (file != nullptr)
 	{
-		if (fseek(file, static_cast<long>(_offset), SEEK_END) != 0) 
+		if (fseek(file, 0, SEEK_END) != 0) 
+		{
+			return false;
+		}
+
+		const auto end = ftell(file);
+		if (end < 0 || static_cast<sgt_size_t>(end) < _offset)
 		{
 			return false;
 		}
 
-		auto remaining = static_cast<sgt_size_t>(ftell(file));
+		const auto remaining = static_cast<sgt_size_t>(end) - _offset;
 		if (fseek(file, static_cast<long>(_offset), SEEK_SET) != 0u)
 		{
 			return false;
@@ -78,7 +87,13 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 				return false;
 			}
 
-			return fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count;
+			if (fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) != count)
+			{
+				m_buffer.clear(); // nothing was delivered
+				return false;
+			}
+
+			return true;
 		}
 	}
 
-- 
2.43.0


From 585b39fc913a2c047f011bef593371037833319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 23/57] fix: function callables forward their arguments

---
 common/include/common/Callable.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6f8336d..6c71120 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -12,8 +12,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		template <typename ... OtherArgs>
-		ReturnType operator()(OtherArgs... _args) const { return (*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename ReturnType, typename... Args>
@@ -31,7 +30,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename Obj, typename ReturnType, typename... Args>
-- 
2.43.0


From a758e642a335f70bd0fac69a01aaf2647f922ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 24/57] fix: argument order of the member function callable
 makers

---
 common/include/common/Callable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6c71120..04cb97e 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -36,7 +36,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_memeber_func(Obj* _obj, ReturnType(Obj::* _func)(Args...))
 	{
-		return MemberFunc<Obj, ReturnType, Args...> {_obj, _func};
+		return MemberFunc<Obj, ReturnType, Args...> {_func, _obj};
 	}
 
 	template <typename ReturnType, typename... Args>
@@ -73,7 +73,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_variadic_memeber_func(Obj* _obj, ReturnType(Obj::* _func)(Args..., ...))
 	{
-		return VariadicMemberFunc<Obj, ReturnType, Args...> {_obj, _func};
+		return VariadicMemberFunc<Obj, ReturnType, Args...> {_func, _obj};
 	}
 
 	template <typename T>
@@ -275,7 +275,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_callable(spvgentwo::IAllocator* _pAllocator, Obj* _obj, ReturnType(Obj::*_func)(Args...))
 	{
-		return Callable<ReturnType(Args...)>(_pAllocator, _func, _obj);
+		return Callable<ReturnType(Args...)>(_pAllocator, _obj, _func);
 	}
 
 	// variadic member function
-- 
2.43.0


From 2a169dde94b25e4d2dfe4bf689f4ad201d06d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 25/57] fix: Callable releases its implementation with its own
 size

---
 common/include/common/Callable.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 04cb97e..90e5e00 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -87,6 +87,7 @@ namespace spvgentwo
 			virtual ~ICallable() = default;
 			virtual ReturnType invoke(Args...) = 0;
 			virtual ICallable* copy(IAllocator* _pAllocator) const = 0;
+			virtual void destroy(IAllocator* _pAllocator) = 0;
 		};
 
 		template <typename Functor>
@@ -108,6 +109,12 @@ namespace spvgentwo
 				return _pAllocator->construct<CallableImpl<Functor>>(m_func);
 			}
 
+			// the size of the implementation is needed for deallocation
+			void destroy(IAllocator* _pAllocator) final
+			{
+				_pAllocator->destruct(this);
+			}
+
 		private:
 			Functor m_func;
 		};
@@ -212,7 +219,7 @@ namespace spvgentwo
 		{
 			if (m_pAllocator != nullptr && m_pCallable != nullptr)
 			{
-				m_pAllocator->destruct(m_pCallable);
+				m_pCallable->destroy(m_pAllocator);
 				m_pCallable = nullptr;
 			}
 		}
-- 
2.43.0


From 89097d9b6ff1efe554ae863767e9288812916988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 26/57] fix: Callable copies functors that are not given away

---
 common/include/common/Callable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 90e5e00..0cee2ab 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -141,7 +141,7 @@ namespace spvgentwo
 		template <typename Functor>
 		Callable(IAllocator* _pAllocator, Functor&& f) :
 			m_pAllocator(_pAllocator),
-			m_pCallable(_pAllocator->construct<CallableImpl<Functor>>(spvgentwo::stdrep::move(f)))
+			m_pCallable(_pAllocator->construct<CallableImpl<traits::remove_cvref_t<Functor>>>(stdrep::forward<Functor>(f)))
 		{}
 
 		Callable(IAllocator* _pAllocator, ReturnType(*_func)(Args...)) :
@@ -182,11 +182,11 @@ namespace spvgentwo
 			return *this;
 		}
 
-		template <typename Functor>
+		template <typename Functor, typename = stdrep::enable_if_t<!stdrep::is_same_v<traits::remove_cvref_t<Functor>, Callable>>>
 		Callable& operator=(Functor&& f) noexcept
 		{
 			reset();
-			m_pCallable = m_pAllocator->construct<CallableImpl<Functor>>(stdrep::move(f));
+			m_pCallable = m_pAllocator->construct<CallableImpl<traits::remove_cvref_t<Functor>>>(stdrep::forward<Functor>(f));
 			return *this;
 		}
 
-- 
2.43.0


From 2b6b1fae8b6c789019022f6b8c2606cf1a87e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 27/57] fix: assigning empty callables and self assignment of
 callables

---
 common/include/common/Callable.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 0cee2ab..7078e5b 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -192,14 +192,21 @@ namespace spvgentwo
 
 		Callable& operator=(const Callable& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
-			m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			if (_other.m_pCallable != nullptr && m_pAllocator != nullptr)
+			{
+				m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			}
 			return *this;
 		}
 
 		Callable& operator=(Callable&& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
 			m_pCallable = _other.m_pCallable;
-- 
2.43.0


From 8d986eee6449ec2178915d8ce99a5822a90095ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 28/57] fix: hashes of types and constants depend on their
 nesting

---
 lib/include/spvgentwo/Constant.h | 2 ++
 lib/include/spvgentwo/Type.h     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/lib/include/spvgentwo/Constant.h b/lib/include/spvgentwo/Constant.h
index 8ddbf4d..4048b12 100644
--- a/lib/include/spvgentwo/Constant.h
+++ b/lib/include/spvgentwo/Constant.h
@@ -172,11 +172,13 @@ namespace spvgentwo
 		{
 			_hasher << _const.getOperation();
 			Hasher<Type>()(_const.getType(), _hasher);
+			_hasher << _const.getData().size(); // constants nested differently must not hash to the same sequence
 			for (const auto& l : _const.getData())
 			{
 				_hasher << l;
 			}
 
+			_hasher << _const.getComponents().size();
 			for (const Constant& component : _const.getComponents())
 			{
 				operator()(component, _hasher);
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index cf80c54..10db124 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -669,6 +669,7 @@ namespace spvgentwo
 			_hasher << _type.getImageFormat();
 			_hasher << _type.getAccessQualifier();
 				
+			_hasher << _type.getSubTypes().size(); // types nested differently must not hash to the same sequence
 			for (const Type& sub : _type.getSubTypes()) {
 				operator()(sub, _hasher); // go deeper
 			}
-- 
2.43.0


From 09a5d0c5b607b658f954f1f2d4fb0b762f844c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 29/57] fix: only numerical scalars have a width and integers a
 sign

---
 lib/source/Type.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 9072a08..bb9e4a4 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -272,20 +272,20 @@ spvgentwo::Type& spvgentwo::Type::Scalar(spv::Op _base, unsigned int _bits, bool
 {
 	reset();
 	m_Type = _base;
-	m_FloatWidth = _bits;
-	m_IntSign = _sign;
+
+	// only numerical types have a width, only integers have a sign
+	if (isInt() || isFloat())
+	{
+		m_FloatWidth = _bits;
+		m_IntSign = isInt() && _sign;
+	}
 
 	return *this;
 }
 
 spvgentwo::Type& spvgentwo::Type::Scalar(const dyn_scalar_t& _scalarType)
 {
-	reset();
-	m_Type = _scalarType.baseType;
-	m_FloatWidth = _scalarType.bits;
-	m_IntSign = _scalarType.sign;
-
-	return *this;
+	return Scalar(_scalarType.baseType, _scalarType.bits, _scalarType.sign);
 }
 
 spvgentwo::Type& spvgentwo::Type::Struct(const Type* _pSubType)
-- 
2.43.0


From 4f957e114d0dda9f645be32a68f5bc51c52b98c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 30/57] fix: dynamic getSubType selects the same subtype as the
 static one

---
 lib/source/Instruction.cpp |  7 +------
 lib/source/Type.cpp        | 14 ++++++--------
 2 files changed, 7 insertions(+), 14 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index a4ed84e..c156e7b 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1211,12 +1211,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(0u);
-
-	if (it != nullptr)
-	{
-		it = it->getSubType(_indices);
-	}
+	auto it = pBaseType->getSubType(_indices);
 
 	if (it != nullptr)
 	{
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index bb9e4a4..a1e9103 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -691,19 +691,17 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
 	auto it = m_subTypes.begin();
+	const Type* pParent = this;
 
 	for (auto i : _indices)
 	{
-		auto prev = it;
-		it = it + i;
-		if (it != nullptr)
+		if (pParent->m_subTypes.empty())
 		{
-			it = it->getSubTypes().begin();
-		}
-		else
-		{
-			return prev;
+			return it; // pParent has no subtypes, return the last valid type
 		}
+
+		it = pParent->m_subTypes.begin() + (i < pParent->m_subTypes.size() ? i : 0u); // same as static variant
+		pParent = &*it;
 	}
 
 	return it;
-- 
2.43.0


From 2950ebf22c1ab3e51de26eb26ec78e7f48a856c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 31/57] fix: functions check the word count of labels and ends
 they read

---
 lib/source/Function.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 583abed..8662658 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -88,10 +88,15 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 			if (m_Parameters.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false) return false;
 			break;
 		case spv::Op::OpLabel:
+			if (operands != 1u) // just the result ID
+			{
+				m_pModule->logError("Invalid word count of OpLabel");
+				return false;
+			}
 			if (addBasicBlock().read(_reader, _grammar) == false) return false;
 			break;
 		case spv::Op::OpFunctionEnd:
-			return true; // FunctionEnd has no operands
+			return operands == 0u; // FunctionEnd has no operands
 		default:
 			m_pModule->logError("Unexpected op-code for function");
 			return false; // unexpected op code
-- 
2.43.0


From 8844ff3b3dd02bf53d39fd99ed9d37961043bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 32/57] fix: readOperands rejects missing and unterminated
 operands

---
 lib/source/Instruction.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c156e7b..5df9609 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -343,11 +343,6 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	m_Operation = _op;
 
-	if (_operandCount == 0u)
-	{
-		return true; // nothing left to do
-	}
-
 	const Grammar::Instruction* info = _grammar.getInfo(static_cast<unsigned int>(m_Operation));
 
 	if (info == nullptr)
@@ -362,13 +357,14 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		while (_operands-- > 0u)
+		while (_operands > 0u)
 		{
 			if (_reader.get(word) == false)
 			{
 				getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 				return false;
 			}
+			--_operands;
 
 			addOperand(static_cast<literal_t>(word));
 			if (hasStringTerminator(word)) // reached end of string
@@ -377,12 +373,18 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			}
 		}
 
-		return true;
+		getModule()->logError("Missing or unterminated string operand of %s", info->name);
+		return false;
 	};
 
 	auto parseId = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
+		if (_operands == 0u)
+		{
+			getModule()->logError("Missing operand of %s", info->name);
+			return false;
+		}
 		if (_reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
@@ -396,6 +398,11 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteral = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
+		if (_operands == 0u)
+		{
+			getModule()->logError("Missing operand of %s", info->name);
+			return false;
+		}
 		if (_reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
-- 
2.43.0


From ac97c18484f4fad22d756e27d43dbec930628c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 33/57] fix: parameters of all bits of a mask operand are read

---
 lib/source/Instruction.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5df9609..98fb28b 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -514,15 +514,31 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			{
 				const unsigned int enumVal = back().getLiteral(); // last added operand
 
-				if (auto* params = _grammar.getOperandParameters(op.kind, enumVal); params != nullptr)
+				auto parseParameters = [&](const unsigned int _value) -> bool
 				{
-					for (const auto& param : *params)
+					if (auto* params = _grammar.getOperandParameters(op.kind, _value); params != nullptr)
 					{
-						if (parseSimpleOps(_operandCount, param) == false)
+						for (const auto& param : *params)
 						{
-							return false;
+							if (parseSimpleOps(_operandCount, param) == false)
+							{
+								return false;
+							}
 						}
 					}
+					return true;
+				};
+
+				if (op.category == Grammar::OperandCategory::ValueEnum)
+				{
+					if (parseParameters(enumVal) == false) return false;
+				}
+				else // parameters of all bits follow the mask, lowest bit first
+				{
+					for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+					{
+						if ((enumVal & bit) != 0u && parseParameters(bit) == false) return false;
+					}
 				}
 			}
 		}
-- 
2.43.0


From 90b6fee56e81349653971600dcbb9c3b71af1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 34/57] fix: missing types and operands of array lengths and
 the image access qualifier are handled

---
 lib/source/Module.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4d0b47..71740c6 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -955,7 +955,8 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				t.Member(sub); // element type
 
 				Instruction* pConstInstr = (++it)->getInstruction();
-				if ( pConstInstr == nullptr || pConstInstr->getType()->isInt() == false)
+				const Type* pConstType = pConstInstr != nullptr ? pConstInstr->getType() : nullptr;
+				if (pConstType == nullptr || pConstType->isInt() == false)
 				{
 					logError("Array length constant not found or invalid type");
 					success = false;
@@ -963,7 +964,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 
 				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit->isLiteral())
+				if (cit != nullptr && cit->isLiteral())
 				{
 					t.setArrayLength(cit->literal); // array length
 				}
@@ -993,7 +994,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				if (++it != nullptr)
 				{
-					t.setAccessQualifier(static_cast<spv::AccessQualifier>((++it)->getLiteral().value));
+					t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
 				}
 			}
 			break;
-- 
2.43.0


From 523aa286bac1ab0623637612a74e71443bc5bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 35/57] fix: entry point interfaces are collected for the
 version required by the grammar

---
 lib/source/Module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 71740c6..0e3a726 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1165,16 +1165,16 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 
 spvgentwo::spv::Id spvgentwo::Module::finalize( const Grammar* _pGrammar )
 {
-	finalizeEntryPoints();
+	const spv::Id maxId = assignIDs( _pGrammar ); // overwrites m_spvBound
 
-	return assignIDs( _pGrammar ); // overwrites m_spvBound
+	finalizeEntryPoints(); // the interface depends on the version required by the grammar
+
+	return maxId;
 }
 
 bool spvgentwo::Module::finalizeAndWrite(IWriter& _writer, const Grammar* _pGrammar)
 {
-	finalizeEntryPoints();
-
-	assignIDs(_pGrammar); // overwrites m_spvBound
+	finalize(_pGrammar);
 
 	return write(_writer);
 }
-- 
2.43.0


From 35b0979bc5008414e50e84c96f7cb182fea8affe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 36/57] fix: all variables an instruction refers to belong to
 the interface

---
 lib/source/Function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 8662658..d1e6782 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -385,7 +385,6 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						_outVarInstr.emplace_back(pArg);
 					}
-					break;
 				}
 			}
 		}
-- 
2.43.0


From 149dc98fb5854e6ed234b2be0507f8c6e12d81d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 37/57] fix: the secondary implied capability is added

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 0e3a726..108dcde 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -320,7 +320,7 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 		}
 		if (cap.secondary != spv::Capability::Max)
 		{
-			addCapability(cap.primary, true);
+			addCapability(cap.secondary, true);
 		}
 	}
 
-- 
2.43.0


From 4485c0306da353232e25879272a0c49893e6b353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 38/57] fix: all operands referring to a removed function are
 replaced

---
 lib/source/Module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 108dcde..1a5dd2e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -261,15 +261,16 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 	{
 		auto gatherUse = [opFunction, opFunctionReplacement, &uses](Instruction& instr)
 		{
+			bool used = false;
 			for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
 			{
 				if (*it == opFunction) // need to check use of OpFunctionparameter?
 				{
 					*it = opFunctionReplacement;
-					uses.emplace_back(&instr);
-					break;
+					used = true;
 				}
 			}
+			if (used) uses.emplace_back(&instr);
 		};
 
 		iterateInstructions(gatherUse);
-- 
2.43.0


From f7d48cd133155d6c4215399ce31bdd2d1f846f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 39/57] fix: result types are uses of the type instruction

---
 lib/source/Module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1a5dd2e..8c11163 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1477,7 +1477,7 @@ void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*
 {
 	auto gather = [_pInstr, _pReplacement, &_outUses](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
 			if (*it == _pInstr)
 			{
@@ -1502,7 +1502,7 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 	auto replace = [_pInstr, _pReplacement](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
 			if (*it == _pInstr)
 			{
-- 
2.43.0


From 8ff6d807f13fb80355bd687e2caeababd02f2d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 40/57] fix: removed instructions leave the lookup maps

---
 lib/source/BasicBlock.cpp | 1 +
 lib/source/Module.cpp     | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 6400a62..d5b5b36 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -160,6 +160,7 @@ bool spvgentwo::BasicBlock::remove(const Instruction* _pInstr)
 		{
 			if(it.operator->() == _pInstr)
 			{
+				getModule()->removeFromLookupMaps(_pInstr);
 				erase(it);
 				return true;
 			}
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 8c11163..2950fa7 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1544,11 +1544,12 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		return false;
 	}
 
-	auto erase = [_pInstr](List<Instruction>& container) -> bool
+	auto erase = [_pInstr, this](List<Instruction>& container) -> bool
 	{
 		auto it = container.find_if([_pInstr](const Instruction& _instr) {return &_instr == _pInstr; });
 		if (it != container.end())
 		{
+			removeFromLookupMaps(_pInstr);
 			container.erase(it);
 			return true;
 		}
@@ -1579,6 +1580,7 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		{
 			if (&value == _pInstr) 
 			{
+				removeFromLookupMaps(_pInstr);
 				m_ExtInstrImport.erase(m_ExtInstrImport.find(key));
 				return true;
 			}
-- 
2.43.0


From 7b8db9b1929817c89d35307c774565b8071ace2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 41/57] fix: Graph::back() yields the last node

---
 common/include/common/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index da320b0..af7653d 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -41,8 +41,8 @@ namespace spvgentwo
 		NodeType& front() { return m_nodes.front(); }
 		const NodeType& front() const { return m_nodes.front(); }
 
-		NodeType& back() { return m_nodes.front(); }
-		const NodeType& back() const { return m_nodes.front(); }
+		NodeType& back() { return m_nodes.back(); }
+		const NodeType& back() const { return m_nodes.back(); }
 
 	protected:
 
-- 
2.43.0


From 3fd9252b88fb271910de2cd87238a9eebc63b72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 42/57] fix: Graph move assignment returns the graph

---
 common/include/common/Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index af7653d..af0f0fd 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -65,6 +65,7 @@ namespace spvgentwo
 	inline Graph<N, E>& Graph<N, E>::operator=(Graph<N, E>&& _other) noexcept
 	{
 		m_nodes = stdrep::move(_other.m_nodes);
+		return *this;
 	}
 
 	template<class N, class E>
-- 
2.43.0


From bde2a22de446bbe74369e1b3474df81100b0e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 43/57] fix: moving a node keeps the edges of its neighbours
 valid

---
 common/include/common/Node.h | 54 +++++++++++++++++++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b9a64b3..b7946ef 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -55,6 +55,12 @@ namespace spvgentwo
 		typename List<EdgeType>::Iterator remove_output(const Node* _pNode);
 
 	private:
+		// remove the edges leading to this node from its neighbours
+		void detach();
+
+		// let edges of the neighbours (and self loops) leading to _pFrom lead to this node
+		void redirect(const Node* _pFrom);
+
 		N m_data{};
 
 		List<EdgeType> m_inputs;
@@ -67,6 +73,7 @@ namespace spvgentwo
 		m_inputs(stdrep::move(_other.m_inputs)),
 		m_outputs(stdrep::move(_other.m_outputs))
 	{
+		redirect(&_other);
 	}
 
 	template<class N, class E>
@@ -79,15 +86,60 @@ namespace spvgentwo
 	template<class N, class E>
 	inline Node<N, E>& Node<N, E>::operator=(Node<N, E>&& _other) noexcept
 	{
-		if (this == &_other) return this;
+		if (this == &_other) return *this;
+
+		detach();
 
 		m_data = stdrep::move(_other.m_data);
 		m_inputs = stdrep::move(_other.m_inputs);
 		m_outputs = stdrep::move(_other.m_outputs);
+		redirect(&_other);
 
 		return *this;
 	}
 
+	template<class N, class E>
+	inline void Node<N, E>::detach()
+	{
+		for (EdgeType& in : m_inputs)
+		{
+			in.pTarget->remove_output(this);
+		}
+		for (EdgeType& out : m_outputs)
+		{
+			out.pTarget->remove_input(this);
+		}
+	}
+
+	template<class N, class E>
+	inline void Node<N, E>::redirect(const Node* _pFrom)
+	{
+		for (EdgeType& in : m_inputs)
+		{
+			if (in.pTarget == _pFrom)
+			{
+				in.pTarget = this;
+				continue;
+			}
+			for (EdgeType& e : in.pTarget->m_outputs)
+			{
+				if (e.pTarget == _pFrom) e.pTarget = this;
+			}
+		}
+		for (EdgeType& out : m_outputs)
+		{
+			if (out.pTarget == _pFrom)
+			{
+				out.pTarget = this;
+				continue;
+			}
+			for (EdgeType& e : out.pTarget->m_inputs)
+			{
+				if (e.pTarget == _pFrom) e.pTarget = this;
+			}
+		}
+	}
+
 	template<class N, class E>
 	inline typename List<typename Node<N, E>::EdgeType>::Iterator Node<N, E>::remove_input(const Node* _pNode)
 	{
-- 
2.43.0


From 9f2b9628b4e6a1ce57d42d9c5e6cf2caf1b0e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 44/57] fix: connecting nodes forwards the edge arguments once

---
 common/include/common/Node.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b7946ef..86472e8 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -175,8 +175,9 @@ namespace spvgentwo
 	template<class ...EdgeArgs>
 	inline void Node<N, E>::connect(Node* _pTarget, EdgeArgs&& ..._args)
 	{
-		m_outputs.emplace_back(_pTarget, stdrep::forward<EdgeArgs>(_args)...);
-		_pTarget->m_inputs.emplace_back(this, stdrep::forward<EdgeArgs>(_args)...);
+		// both directions carry the same data, arguments can only be forwarded once
+		const EdgeType& out = m_outputs.emplace_back(_pTarget, stdrep::forward<EdgeArgs>(_args)...);
+		_pTarget->m_inputs.emplace_back(this, out.data);
 	}
 
 	template<class N, class E>
-- 
2.43.0


From 39805dad3a1170bcbebed6d9b0c8596893c298db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 45/57] fix: expression graphs with lists of edges or
 expressions compile

---
 common/include/common/ExprGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/include/common/ExprGraph.h b/common/include/common/ExprGraph.h
index 6d2ef79..8f3e41c 100644
--- a/common/include/common/ExprGraph.h
+++ b/common/include/common/ExprGraph.h
@@ -56,7 +56,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				expr(_pExitNode->inputs(), _pExitNode->output());			
+				expr(_pExitNode->inputs(), _pExitNode->outputs());			
 			}
 		}
 	}
@@ -76,13 +76,13 @@ namespace spvgentwo
 
 			if constexpr (args == ExprArgs::FunctionPtrLists)
 			{
-				auto inputs = transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
-				auto outputs = transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto inputs = algo::transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto outputs = algo::transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
 				expr(inputs, outputs);
 			}
 			else
 			{
-				expr(node->inputs(), node->output());
+				expr(node->inputs(), node->outputs());
 			}
 		}
 
-- 
2.43.0


From 3c88285152d8b2f072581cd80fe0fb4240700cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:05 +0000
Subject: [PATCH 46/57] fix: complete the table of implied capabilities

---
 lib/include/spvgentwo/SpvDefines.h | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 961b8fa..3c04eeb 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -342,9 +342,9 @@ namespace spvgentwo
 		case spv::Capability::FragmentShadingRateKHR: return spv::Capability::Shader;
 		//case spv::Capability::SubgroupBallotKHR:
 		case spv::Capability::DrawParameters: return spv::Capability::Shader;
-		//case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: unkown
-		//case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: unkonwn
-		//case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: unkown
+		case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: return spv::Capability::Shader;
+		case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
+		case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
 		//case spv::Capability::SubgroupVoteKHR:
 		//case spv::Capability::StorageBuffer16BitAccess: // same as StorageUniformBufferBlock16
 		case spv::Capability::UniformAndStorageBuffer16BitAccess: return spv::Capability::StorageBuffer16BitAccess; // same as StorageUniform16
@@ -397,9 +397,9 @@ namespace spvgentwo
 		case spv::Capability::SampledImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
+		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return { spv::Capability::InputAttachment, spv::Capability::ShaderNonUniform };
+		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return { spv::Capability::SampledBuffer, spv::Capability::ShaderNonUniform };
+		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return { spv::Capability::ImageBuffer, spv::Capability::ShaderNonUniform };
 		case spv::Capability::RayTracingNV: return spv::Capability::Shader;
 		//case spv::Capability::VulkanMemoryModel:
 		//case spv::Capability::VulkanMemoryModelDeviceScope:
@@ -425,7 +425,7 @@ namespace spvgentwo
 		//case spv::Capability::AtomicFloat32MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat64MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat16MinMaxEXT: unknown
-		//case spv::Capability::VectorComputeINTEL: unknown
+		case spv::Capability::VectorComputeINTEL: return spv::Capability::VectorAnyINTEL;
 		//case spv::Capability::VectorAnyINTEL: unknown
 		//case spv::Capability::SubgroupAvcMotionEstimationINTEL:
 		//case spv::Capability::SubgroupAvcMotionEstimationIntraINTEL:
@@ -433,7 +433,7 @@ namespace spvgentwo
 		//case spv::Capability::VariableLengthArrayINTEL: unknown
 		//case spv::Capability::FunctionFloatControlINTEL: unknown
 		//case spv::Capability::FPGAMemoryAttributesINTEL: unknown
-		//case spv::Capability::FPFastMathModeINTEL: unknown
+		case spv::Capability::FPFastMathModeINTEL: return spv::Capability::Kernel;
 		//case spv::Capability::ArbitraryPrecisionIntegersINTEL: unknown
 		//case spv::Capability::UnstructuredLoopControlsINTEL:
 		//case spv::Capability::FPGALoopControlsINTEL:
@@ -450,6 +450,16 @@ namespace spvgentwo
 		case spv::Capability::AtomicFloat32AddEXT: return spv::Capability::Shader;
 		case spv::Capability::AtomicFloat64AddEXT: return spv::Capability::Shader;
 		//case spv::Capability::LongConstantCompositeINTEL: unknown
+		case spv::Capability::MeshShadingEXT: return spv::Capability::Shader;
+		case spv::Capability::ShaderEnqueueAMDX: return spv::Capability::Shader;
+		case spv::Capability::RayTracingPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::RayTracingMotionBlurNV: return spv::Capability::Shader;
+		case spv::Capability::RayTracingOpacityMicromapEXT: return { spv::Capability::RayQueryKHR, spv::Capability::RayTracingKHR };
+		case spv::Capability::ShaderInvocationReorderNV: return spv::Capability::RayTracingKHR;
+		case spv::Capability::RayQueryPositionFetchKHR: return spv::Capability::Shader;
+		case spv::Capability::DotProductInput4x8Bit: return spv::Capability::Int8;
+		case spv::Capability::GroupNonUniformRotateKHR: return spv::Capability::GroupNonUniform;
+		case spv::Capability::FPGAKernelAttributesv2INTEL: return spv::Capability::FPGAKernelAttributesINTEL;
 		default:
 			return spv::Capability::Max;
 		}
-- 
2.43.0


From f289f7607a9a86f101da8f0818b93c6077116b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:38 +0000
Subject: [PATCH 47/57] fix: removing an instruction keeps the table entry
 other instructions with an equal type or constant share

---
 lib/source/Module.cpp | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 2950fa7..018df29 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1516,23 +1516,35 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 {
-	if (auto itt = m_InstrToType.find(_pInstr); itt != m_InstrToType.end())
+	auto removeEntry = [_pInstr](auto& _instrToKey, auto& _keyToInstr)
 	{
-		if(auto tti = m_TypeToInstr.find(*itt->value); tti != m_TypeToInstr.end())
+		auto it = _instrToKey.find(_pInstr);
+		if (it == _instrToKey.end()) return;
+
+		const auto* key = it->value;
+		_instrToKey.erase(it);
+
+		auto entry = _keyToInstr.find(*key);
+		if (entry == _keyToInstr.end()) return;
+
+		// instructions with equal keys (e.g. specialization constants) share the entry
+		for (const auto& [instr, otherKey] : _instrToKey)
 		{
-			m_TypeToInstr.erase(tti);
+			if (otherKey == key)
+			{
+				if (entry->value == _pInstr) entry->value = const_cast<Instruction*>(instr);
+				return;
+			}
 		}
-		m_InstrToType.erase(itt);
-	}
 
-	if (auto itc = m_InstrToConstant.find(_pInstr); itc != m_InstrToConstant.end())
-	{
-		if (auto cti = m_ConstantToInstr.find(*itc->value); cti != m_ConstantToInstr.end())
+		if (entry->value == _pInstr)
 		{
-			m_ConstantToInstr.erase(cti);
+			_keyToInstr.erase(entry);
 		}
-		m_InstrToConstant.erase(itc);
-	}
+	};
+
+	removeEntry(m_InstrToType, m_TypeToInstr);
+	removeEntry(m_InstrToConstant, m_ConstantToInstr);
 
 	m_NameLookup.eraseRange(_pInstr);
 }
-- 
2.43.0


From bc5c6fc011969e5a26510f8d0e70cb11d2135e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:38 +0000
Subject: [PATCH 48/57] fix: removing a block or function drops the recorded
 names of the instructions it contains

---
 lib/source/Function.cpp |  5 +++++
 lib/source/Module.cpp   | 21 +++++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index d1e6782..1d05347 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -146,6 +146,11 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const Basic
 	{
 		if (it.operator->() == _pBB)
 		{
+			m_pModule->removeFromLookupMaps(opLabel);
+			for (const Instruction& instr : *it)
+			{
+				m_pModule->removeFromLookupMaps(&instr);
+			}
 			erase(it);
 			found = true;
 			break;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 018df29..a3addd2 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -231,12 +231,31 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 	const Instruction* opFunction = _pFunction->getFunction();
 	Instruction* opFunctionReplacement = _pReplacementToCall != nullptr ? _pReplacementToCall->getFunction() : nullptr;
 
+	auto removeInfo = [this](const Function& _func)
+	{
+		removeFromLookupMaps(_func.getFunction());
+		for (const Instruction& param : _func.getParameters())
+		{
+			removeFromLookupMaps(&param);
+		}
+		for (const BasicBlock& bb : _func)
+		{
+			removeFromLookupMaps(bb.getLabel());
+			for (const Instruction& instr : bb)
+			{
+				removeFromLookupMaps(&instr);
+			}
+		}
+		removeFromLookupMaps(_func.getFunctionEnd());
+	};
+
 	// remove from functions if its not an entry point
 	bool found = false;
 	for (auto it = m_Functions.begin(), end = m_Functions.end(); it != end; ++it)
 	{
 		if (it.operator->() == _pFunction)
 		{
+			removeInfo(*it);
 			m_Functions.erase(it);
 			found = true;
 			break;
@@ -250,6 +269,8 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 		{
 			if (it.operator->() == _pFunction)
 			{
+				removeFromLookupMaps(it->getEntryPoint());
+				removeInfo(*it);
 				m_EntryPoints.erase(it);
 				found = true;
 				break;
-- 
2.43.0


From fa21c03e58581482ea38ffe2be311345bd4cf303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 49/57] fix: opBitCount rejects every operand: OpBitCount has
 no operand type

---
 lib/include/spvgentwo/SpvDefines.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 3c04eeb..bab6d3e 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -197,6 +197,7 @@ namespace spvgentwo
 		case spv::Op::OpSatConvertSToU:
 		case spv::Op::OpBitFieldInsert:
 		case spv::Op::OpBitReverse:
+		case spv::Op::OpBitCount:
 
 			_sign = Sign::Any;
 			return spv::Op::OpTypeInt;
-- 
2.43.0


From 588004a70d24e9ca0302ad4bf5e9bd9b2a81fa59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 50/57] fix: opVectorTimesMatrix gives its result the vector's
 type instead of one component per column

---
 lib/source/Instruction.cpp               | 2 +-
 lib/source/TypeInferenceAndValiation.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 98fb28b..72df228 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1393,7 +1393,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorTimesMatrix(Instruction*
 
 	if (pVecType->isVectorOfFloat() && pMatType->isMatrix() && pMatType->hasSameBase(*pVecType) && pMatType->front().getVectorComponentCount() == pVecType->getVectorComponentCount())
 	{
-		return makeOp(spv::Op::OpVectorTimesMatrix, _pVector->getResultTypeInstr(), InvalidId, _pVector, _pMatrix);
+		return makeOp(spv::Op::OpVectorTimesMatrix, InvalidInstr, InvalidId, _pVector, _pMatrix);
 	}
 
 	getModule()->logError("Operand of OpVectorTimesMatrix is not a vector or matrix of float type");
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d40293f..ed35618 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -219,14 +219,14 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		break;
 	case spv::Op::OpVectorTimesMatrix:
 	{
-		if (type1 == nullptr) return module->getErrorInstr();
+		if (type2 == nullptr) return module->getErrorInstr();
 
 		// Matrix must be a matrix with the same Component Type as the Component Type in Result Type.
 		// Its number of columns must equal the number of components in Result Type.
 		// => return matrix row type:
-		if (type1->isMatrix())
+		if (type2->isMatrix())
 		{
-			return module->addType(type1->front().wrapVector(type1->getMatrixColumnCount()));
+			return module->addType(type2->getBaseType().wrapVector(type2->getMatrixColumnCount()));
 		}
 		break;
 	}
-- 
2.43.0


From a68e959f1912e02bace21e530e3dc70db70c0487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 51/57] fix: opPhiDynamic drops the first variable

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 72df228..34b7ffc 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1030,7 +1030,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPhiDynamic(const List<Instruct
 
 	makeOp(spv::Op::OpPhi, type, InvalidId);
 
-	for (auto it = _variables.begin().next(); it != _variables.end(); ++it)
+	for (auto it = _variables.begin(); it != _variables.end(); ++it)
 	{
 		Instruction* var = *it;
 		if (var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
-- 
2.43.0


From 1acc442e5301dfdeed096a658aeef170ba4100f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 52/57] fix: image size queries of one-dimensional images infer
 a vector of one component

---
 lib/source/TypeInferenceAndValiation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index ed35618..922ebba 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -427,6 +427,8 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		auto dim = getImageDimension(type1->getImageDimension()) + (type1->getImageArray() ? 1u : 0u);
 
+		if (dim == 1u) return module->type<unsigned int>();
+
 		return module->addType(module->newType().Vector(dim).UIntM());
 	}
 	case spv::Op::OpImageQueryLod:
-- 
2.43.0


From e43fb5ed727d9b98380f2582170906f5c32d63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 53/57] fix: validateOperands looks at the first instruction of
 an empty branch target

---
 lib/source/TypeInferenceAndValiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 922ebba..bebe0af 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -560,7 +560,7 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 				module->logError("Unassigned branchtarget operand (nullptr)");
 				return false;
 			}
-			else if (&op.branchTarget->front() == &_instr)
+			else if (op.branchTarget->empty() == false && &op.branchTarget->front() == &_instr)
 			{
 				module->logError("Recursive branch target instruction operand");
 				return false;
-- 
2.43.0


From 436c15be5af752626e4743be2ea0c6c614bdd2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:43 +0000
Subject: [PATCH 54/57] fix: validation of Grad and Offset image operands reads
 a missing operand and rejects correct ones

---
 lib/source/TypeInferenceAndValiation.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index bebe0af..d80fb2a 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -44,10 +44,11 @@ namespace
 		const Type* type1 = op1 != nullptr ? op1->getType() : nullptr;
 		const Type* type2 = op2 != nullptr ? op2->getType() : nullptr;;
 
-		auto checkCoordAndOperandDim = [&]() ->bool
+		auto checkCoordAndOperandDim = [&](const Type* _operandType) ->bool
 		{
-			unsigned int coordLength = coordType->getScalarOrVectorLength() - (imageType->getImageArray() ? 1u : 0u);
-			if (coordLength != type1->getScalarOrVectorLength() || coordLength != type2->getScalarOrVectorLength())
+			const Type* image = imageType->isSampledImage() ? &imageType->front() : imageType;
+			unsigned int coordLength = coordType->getScalarOrVectorLength() - (image->getImageArray() ? 1u : 0u);
+			if (_operandType == nullptr || coordLength != _operandType->getScalarOrVectorLength())
 			{
 				module->logError("Invalid derivative dimensions");
 				return false;
@@ -68,11 +69,11 @@ namespace
 				case spv::ImageOperandsMask::Lod:
 					return module->logError(op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)");
 				case spv::ImageOperandsMask::Grad:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(type1) == false || checkCoordAndOperandDim(type2) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat) == false)
 					{
 						module->logError("Explicit lod grad operands must be scalar or vector of float");
 						return false;
@@ -86,11 +87,11 @@ namespace
 					}
 					[[fallthrough]];
 				case spv::ImageOperandsMask::Offset:
-					if (checkCoordAndOperandDim() == false)
+					if (checkCoordAndOperandDim(type1) == false)
 					{
 						return false;
 					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false || type2->isBaseTypeOf(spv::Op::OpTypeInt))
+					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false)
 					{
 						module->logError("Explicit lod grad operands must be scalar or vector of integer");
 						return false;
-- 
2.43.0


From 03458327abbc777e614fe0853a562567a0c2aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 55/57] fix: opVectorInsertDynamic with a component that has no
 type must not dereference it

---
 lib/source/Instruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 34b7ffc..b5c7ea1 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1293,10 +1293,11 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorExtractDynamic(Instructi
 spvgentwo::Instruction* spvgentwo::Instruction::opVectorInsertDynamic(Instruction* _pVector, Instruction* _pComponent, Instruction* _pIndexInt)
 {
 	const Type* pVecType = _pVector->getType();
+	const Type* pComponentType = _pComponent->getType();
 	const Type* indexType = _pIndexInt->getType();
-	if (pVecType == nullptr || indexType == nullptr) return error();
+	if (pVecType == nullptr || pComponentType == nullptr || indexType == nullptr) return error();
 
-	if (pVecType->isVector() && pVecType->front() == *_pComponent->getType() && indexType->isInt())
+	if (pVecType->isVector() && pVecType->front() == *pComponentType && indexType->isInt())
 	{
 		return makeOp(spv::Op::OpVectorInsertDynamic, InvalidInstr, InvalidId, _pVector, _pComponent, _pIndexInt);
 	}
-- 
2.43.0


From 86115bcdb50ee7a8dd93ae68159ac5593d66cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 56/57] fix: opBitcast accepts only pointers and numerical
 scalars or vectors

---
 lib/source/Instruction.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index b5c7ea1..44bcbdd 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1712,7 +1712,8 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 	}
 
 	if ((operandType->isPointer() && resultType->isPointer()) ||
-		(operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
+		(operandType->isNumericalScalarOrVector() && resultType->isNumericalScalarOrVector() &&
+			operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
 			resultType->getScalarOrVectorLength() * resultType->getBaseType().getIntWidth()))
 	{
 		return makeOp(spv::Op::OpBitcast, _pResultType, InvalidId, _pOperand);
-- 
2.43.0


From c6f223152c8adca895077d04af164a2197c1b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:48 +0000
Subject: [PATCH 57/57] fix: opImageRead of one channel or unknown format must
 not infer a vector of one or no component

---
 lib/source/TypeInferenceAndValiation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d80fb2a..eaf7924 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -387,6 +387,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		// component type the same as Sampled Type of the OpTypeImage(unless that Sampled Type is OpTypeVoid)
 
 		unsigned int components = instr != spv::Op::OpImageRead ? 4u : getImageChannelCount(image->getImageFormat());
+		if (components == 0u) components = 4u; // image format is not known
 		
 		if (sampledType.isVoid())
 		{
@@ -395,7 +396,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		}
 		else
 		{
-			return module->addType(sampledType.wrapVector(components));
+			return module->addType(components > 1u ? sampledType.wrapVector(components) : sampledType); // a vector has at least two components
 		}
 	}		
 		break;
-- 
2.43.0

