From 3fc204790d9281940c66b38745ca724313162dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:03 +0000
Subject: [PATCH 01/52] fix: write the package version into outgoing
 MVR-xchange packets

---
 src/mvrxchange/mvrxchange_message.cpp | 2 ++
 src/mvrxchange/mvrxchange_prefix.h    | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 71787b6..63b2863 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -30,6 +30,7 @@ T swap_endian(T u)
 MVRxchangePacket::MVRxchangePacket()
 {
     fFlag       = kMVR_Package_Flag;
+    fVersion    = kMVR_Package_Version;
     fNumber     = 0;
     fCount      = 0;
     fType       = 0;
@@ -270,6 +271,7 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     MVRXCHANGE_LOG("sending message of type: " << payload["Type"].get<std::string>());
 
     fFlag       = kMVR_Package_Flag;
+    fVersion    = kMVR_Package_Version;
     fNumber     = 0;
     fCount      = 1;
 
diff --git a/src/mvrxchange/mvrxchange_prefix.h b/src/mvrxchange/mvrxchange_prefix.h
index a580595..18a3dff 100644
--- a/src/mvrxchange/mvrxchange_prefix.h
+++ b/src/mvrxchange/mvrxchange_prefix.h
@@ -37,6 +37,7 @@ using ip::tcp;
 
 
 constexpr uint32_t kMVR_Package_Flag =  778682;
+constexpr uint32_t kMVR_Package_Version =  1;
 constexpr uint32_t kMVR_Package_JSON_TYPE   =  0;
 constexpr uint32_t kMVR_Package_BUFFER_TYPE =  1;
 
-- 
2.43.0


From 7f49e92627e23507e89ef2b4a04cfb6decd710d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 02/52] fix: filter the service name before the server accepts
 messages

---
 src/mvrxchange/CMVRxchangeService.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1eb906f..dc7882f 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -49,9 +49,8 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 	//---------------------------------------------------------------------------------------------
 	// Start TCP
 	fCurrentService = service;
-	this->TCP_Start();
-
 	FilterServiceName(fCurrentService.Service);
+	this->TCP_Start();
 
 	//---------------------------------------------------------------------------------------------
 	// Start mDNS Service
-- 
2.43.0


From ef9998de8b999c0cf49488249dc1284f1bbe695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 03/52] fix: keep the MVR-xchange group in step with the join
 and leave messages

A leave message removed its sender only when the sender was unknown, and then
by an unset UUID; a repeated or resolved join added the station twice and kept
its old port; a station that left kept its former group.
---
 src/mvrxchange/CMVRxchangeService.cpp | 136 +++++++++++++++++++-------
 src/mvrxchange/CMVRxchangeService.h   |  13 +++
 2 files changed, 112 insertions(+), 37 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index dc7882f..15714de 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -100,6 +100,12 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 	{
 		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
 		fMVRGroup = GetMembersOfService(fCurrentService.Service);
+		for(const MvrUUID& uuid : fLeftStations)
+		{
+			RemoveGroupMember(uuid);
+		}
+		fLeftStations.clear();
+		fGroupInitialized = true;
 	}
 	
 	//---------------------------------------------------------------------------------------------
@@ -141,6 +147,13 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveLocalService()
     }
     fmdns.clear();
 
+	{
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		fMVRGroup.clear();
+		fJoiningStations.clear();
+		fLeftStations.clear();
+		fGroupInitialized = false;
+	}
 
 	return kVCOMError_NoError;
 }
@@ -298,52 +311,38 @@ void CMVRxchangeServiceImpl::TCP_Stop()
 IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMessage(const IMVRxchangeService::IMVRxchangeMessage& in, const TCPMessageInfo& data)
 {
     
-    if(in.Type == MVRxchangeMessageType::MVR_JOIN)
+    if(in.Type == MVRxchangeMessageType::MVR_JOIN && in.RetIsOK)
     {
-
+		const MvrUUID uuid = in.JOIN.StationUUID;
+		size_t join = 0;
 		MVRxchangeGroupMember newItem;
-		if(GetSingleMemberOfService(in.JOIN.StationUUID, newItem) == kVCOMError_NoError)
+		bool isKnown = (GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError);
 		{
 			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			// In case Station sent message twice (e.g. to change their name)
-			auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-				return it.IP == newItem.IP && it.Port == newItem.Port;
-			});
-			
-			if(it != fMVRGroup.end())
-			{
-				*it = newItem; // changed name
-			}else
+			join = ++fJoinCounter;
+			RemoveJoining(uuid);
+			fJoiningStations.emplace_back(uuid, join);
+			fLeftStations.erase(std::remove(fLeftStations.begin(), fLeftStations.end(), uuid), fLeftStations.end());
+
+			if(isKnown)
 			{
-				fMVRGroup.push_back(newItem);
+				SetGroupMember(newItem);
 			}
 		}
-		else
-		{
-			auto& uuid = in.JOIN.StationUUID;
-			boost::asio::post(fmdns_IO_Context, [this, uuid](){
-				this->mDNS_Client_Task(); // Run, in case client was faster than task
-				MVRxchangeGroupMember newItem;
-				if(GetSingleMemberOfService(uuid, newItem) == kVCOMError_NoError)
-				{
-					std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-					fMVRGroup.push_back(newItem);
-				}
-			});
-		}
+
+		// The station may be new, or may have come back with another port: read its current announcement
+		boost::asio::post(fmdns_IO_Context, [this, uuid, join](){
+			this->ResolveJoin(uuid, join);
+		});
     }
-	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE)
+	else if(in.Type == MVRxchangeMessageType::MVR_LEAVE && in.RetIsOK)
 	{
-		MVRxchangeGroupMember newItem;
-		if(GetSingleMemberOfService(in.LEAVE.FromStationUUID, newItem) != kVCOMError_NoError)
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		RemoveJoining(in.LEAVE.FromStationUUID);
+		RemoveGroupMember(in.LEAVE.FromStationUUID);
+		if(!fGroupInitialized)
 		{
-			std::lock_guard<std::mutex> lock(fMvrGroupMutex);
-			fMVRGroup.erase(
-				std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&newItem](const MVRxchangeGroupMember& it){
-					return it.stationUUID == newItem.stationUUID;
-				}),
-				fMVRGroup.end()
-			);
+			fLeftStations.push_back(in.LEAVE.FromStationUUID);
 		}
 	}
 
@@ -358,6 +357,67 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
 }
 
 
+void CMVRxchangeServiceImpl::SetGroupMember(const MVRxchangeGroupMember& member)
+{
+	auto it = std::find_if(fMVRGroup.begin(), fMVRGroup.end(), [&member](const MVRxchangeGroupMember& it){
+		return it.stationUUID == member.stationUUID;
+	});
+
+	if(it != fMVRGroup.end())
+	{
+		*it = member; // e.g. changed name or port
+	}else
+	{
+		fMVRGroup.push_back(member);
+	}
+}
+
+void CMVRxchangeServiceImpl::RemoveGroupMember(const MvrUUID& stationUUID)
+{
+	fMVRGroup.erase(
+		std::remove_if(fMVRGroup.begin(), fMVRGroup.end(), [&stationUUID](const MVRxchangeGroupMember& it){
+			return it.stationUUID == stationUUID;
+		}),
+		fMVRGroup.end()
+	);
+}
+
+bool CMVRxchangeServiceImpl::IsJoining(const MvrUUID& stationUUID, size_t join)
+{
+	return std::find(fJoiningStations.begin(), fJoiningStations.end(), std::make_pair(stationUUID, join)) != fJoiningStations.end();
+}
+
+void CMVRxchangeServiceImpl::RemoveJoining(const MvrUUID& stationUUID)
+{
+	fJoiningStations.erase(
+		std::remove_if(fJoiningStations.begin(), fJoiningStations.end(), [&stationUUID](const std::pair<MvrUUID, size_t>& it){
+			return it.first == stationUUID;
+		}),
+		fJoiningStations.end()
+	);
+}
+
+void CMVRxchangeServiceImpl::ResolveJoin(const MvrUUID& stationUUID, size_t join)
+{
+	{
+		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+		if(!IsJoining(stationUUID, join)) { return; }	// left again, or joined once more
+	}
+
+	this->mDNS_Client_Task(); // Run, in case client was faster than task
+	MVRxchangeGroupMember newItem;
+	bool isKnown = (GetSingleMemberOfService(stationUUID, newItem) == kVCOMError_NoError);
+
+	std::lock_guard<std::mutex> lock(fMvrGroupMutex);
+	if(!IsJoining(stationUUID, join)) { return; }
+
+	RemoveJoining(stationUUID);
+	if(isKnown)
+	{
+		SetGroupMember(newItem);
+	}
+}
+
 void CMVRxchangeServiceImpl::TCP_OnReturningMessage(
 	const SendMessageArgs& messageArgs,
 	const IMVRxchangeService::IMVRxchangeMessage& in, 
@@ -416,11 +476,13 @@ std::vector<MVRxchangeGroupMember> CMVRxchangeServiceImpl::GetMembersOfService(c
 }
 
 VCOMError CMVRxchangeServiceImpl::GetSingleMemberOfService(const MvrUUID& stationUUID, MVRxchangeGroupMember& out){
+	std::string service = std::string(fCurrentService.Service.fBuffer) + '.' + MVRXChange_Service;
+
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
 
 	for(const auto& e : fQueryLocalServicesResult)
 	{
-        if(e.StationUUID == stationUUID)
+        if(e.StationUUID == stationUUID && service == e.Service.fBuffer)
 		{
 			MVRxchangeGroupMember member;
 			for(auto& i : e.IPv4_list)
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index 982280e..afc2b58 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -76,6 +76,19 @@ namespace VectorworksMVR
 		std::mutex fMvrGroupMutex;
 		std::vector<MVRxchangeGroupMember>			fMVRGroup;
 	private:
+		// Guarded by fMvrGroupMutex
+		std::vector<std::pair<MvrUUID, size_t>>		fJoiningStations;			// Stations that sent a MVR_JOIN whose announcement is still to be read
+		size_t										fJoinCounter = 0;
+		bool										fGroupInitialized = false;	// Set once fMVRGroup is read from the announcements
+		std::vector<MvrUUID>						fLeftStations;				// Stations that sent a MVR_LEAVE before that
+
+		// fMvrGroupMutex must be locked for these
+		void				SetGroupMember(const MVRxchangeGroupMember& member);
+		void				RemoveGroupMember(const MvrUUID& stationUUID);
+		bool				IsJoining(const MvrUUID& stationUUID, size_t join);
+		void				RemoveJoining(const MvrUUID& stationUUID);
+		
+		void				ResolveJoin(const MvrUUID& stationUUID, size_t join);
 
 		OnMessageArgs  fCallBack;
 		//---------------------------------------------------------------------------
-- 
2.43.0


From a01ced76f404f7c4bce8d862bc8b09a19f2a36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 04/52] fix: keep one background query timer after a reconnect,
 on the steady clock

---
 src/mvrxchange/CMVRxchangeService.cpp | 10 ++++++----
 src/mvrxchange/CMVRxchangeService.h   |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 15714de..2c62110 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -501,13 +501,15 @@ VCOMError CMVRxchangeServiceImpl::GetSingleMemberOfService(const MvrUUID& statio
 	return kVCOMError_Failed;
 }
 
-void CMVRxchangeServiceImpl::mDNS_Client_Tick()
+void CMVRxchangeServiceImpl::mDNS_Client_Tick(const boost::system::error_code& error)
 {
+	if(error) { return; }	// replaced by a newer tick
+
 	MVRXCHANGE_DEBUG("mDNS_Client_Tick");
 	mDNS_Client_Task();
 
-	fmdns_long_timer.expires_from_now(boost::posix_time::seconds(45));
-	fmdns_long_timer.async_wait(boost::bind(&CMVRxchangeServiceImpl::mDNS_Client_Tick, this));
+	fmdns_long_timer.expires_after(std::chrono::seconds(45));
+	fmdns_long_timer.async_wait([this](const boost::system::error_code& error){ this->mDNS_Client_Tick(error); });
 }
 
 void CMVRxchangeServiceImpl::mDNS_Client_RFun()
@@ -521,7 +523,7 @@ void CMVRxchangeServiceImpl::mDNS_Client_RFun()
 void CMVRxchangeServiceImpl::mDNS_Client_Start()
 {
 	fmdns_stop_flag = false;
-	boost::asio::post(fmdns_IO_Context, boost::bind(&CMVRxchangeServiceImpl::mDNS_Client_Tick, this));
+	boost::asio::post(fmdns_IO_Context, [this](){ this->mDNS_Client_Tick(); });
 	fmdns_Thread = std::thread(&CMVRxchangeServiceImpl::mDNS_Client_RFun, this);
 }
 
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index afc2b58..83bed28 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -46,7 +46,7 @@ namespace VectorworksMVR
 	private:
 		void mDNS_Client_Task();	// actual mdns task
 		
-		void mDNS_Client_Tick();	// mdns tick function (executed by RFun function)
+		void mDNS_Client_Tick(const boost::system::error_code& error = boost::system::error_code());	// mdns tick function (executed by RFun function)
 		void mDNS_Client_RFun();	// thread function (executed by fmdns_Thread)
 
 		void mDNS_Client_Stop();
@@ -57,7 +57,7 @@ namespace VectorworksMVR
 		std::vector<std::unique_ptr<mdns_cpp::mDNS>>	fmdns;
 		std::thread 									fmdns_Thread;
 		boost::asio::io_context 						fmdns_IO_Context;
-		boost::asio::deadline_timer						fmdns_long_timer;
+		boost::asio::steady_timer						fmdns_long_timer;
 		std::atomic<bool>								fmdns_stop_flag;
 
 		std::mutex 										fQueryLocalServicesResult_mtx;
-- 
2.43.0


From 256f32c4c0c05b39e673bbff422a4a64c4b27be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 05/52] fix: QueryLocalServices no longer misses the end of its
 query

---
 src/mvrxchange/CMVRxchangeService.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 2c62110..12bed11 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -164,14 +164,13 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 
 	if(fmdns_Thread.joinable())
 	{
-		std::condition_variable cv;
-		std::mutex mut;
-		std::unique_lock<std::mutex> lock(mut);
-		boost::asio::post(fmdns_IO_Context, [this, &cv](){
+		auto done = std::make_shared<std::promise<void>>();
+		std::future<void> isDone = done->get_future();
+		boost::asio::post(fmdns_IO_Context, [this, done](){
 			this->mDNS_Client_Task();
-			cv.notify_all();
+			done->set_value();
 		});
-		cv.wait(lock);
+		while(isDone.wait_for(std::chrono::seconds(1)) != std::future_status::ready && !fmdns_stop_flag) {}
 	}else{
 		this->mDNS_Client_Task();
 	}
-- 
2.43.0


From 909cc6fb24cc4872ff616bfc9835fb67550a8ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 06/52] fix: GetLocalServiceAt rejects the index behind the
 last service

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 12bed11..650e305 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -188,7 +188,7 @@ VCOMError VCOM_CALLTYPE  CMVRxchangeServiceImpl::QueryLocalServices(size_t& out_
 VCOMError VCOM_CALLTYPE VectorworksMVR::CMVRxchangeServiceImpl::GetLocalServiceAt(size_t index, ConnectToLocalServiceArgs& outLocalService)
 {
 	std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
-	if ( fQueryLocalServicesResult.size() < index)
+	if ( fQueryLocalServicesResult.size() <= index)
 	{
 		return kVCOMError_Failed;
 	}
-- 
2.43.0


From 16e9cf5c308a3891eab14bce842b3ac10d5619bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 07/52] fix: read every announced TXT record to its end and
 within its bounds

---
 src/mvrxchange/CMVRxchangeService.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 650e305..bc1428a 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -634,30 +634,25 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 		TXString uuid;
 
 		size_t ptr = 0;
-		do{
+		while(ptr < r.txt.size())
+		{
 			uint8_t len = r.txt[ptr];
 
 			std::string t = r.txt.substr(ptr + 1, len);
-			size_t eqIdx = t.find('=');
-			if(eqIdx == std::string::npos)
-			{
-				continue;
-			}
+			ptr += len + 1;
 
-			if(t.rfind("StationName=") == 0)
+			if(t.rfind("StationName=", 0) == 0)
 			{
-				name = t.substr(eqIdx + 1);
+				name = t.substr(t.find('=') + 1);
 			}
-			else if(t.rfind("StationUUID=") == 0)
+			else if(t.rfind("StationUUID=", 0) == 0)
 			{
-				uuid = t.substr(eqIdx + 1);
+				uuid = t.substr(t.find('=') + 1);
 			}
-
-			ptr += len + 1;
-		}while(ptr < r.txt.size());
+		}
 
 		SceneData::GdtfConverter::ConvertUUID(uuid, localServ.StationUUID);
-		strcpy(localServ.StationName, name.GetCharPtr());
+		localServ.StationName = name.GetCharPtr();
 
 		#ifndef NDEBUG
 			std::string out;
-- 
2.43.0


From 0227c5fec239d7a331e7b6df1a5b2bf4a53455f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 08/52] fix: bound the strings and require the fields of a
 received MVR-xchange message

---
 src/mvrxchange/mvrxchange_message.cpp | 80 +++++++++++++--------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 63b2863..6105e3f 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -168,18 +168,18 @@ void MVR_COMMIT_ToJson(const IMVRxchangeService::MVR_COMMIT_MESSAGE& msg, nlohma
 
 void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_COMMIT_MESSAGE& in)
 {
-    strcpy(in.Comment, payload["Comment"].get<std::string>().c_str());
-    in.VersionMajor= payload["verMajor"];
-    in.VersionMinor= payload["verMinor"];
-    in.FileSize= payload["FileSize"];
-    strcpy(in.FileName, payload["FileName"].get<std::string>().c_str());
+    in.Comment = payload.at("Comment").get<std::string>().c_str();
+    in.VersionMajor= payload.at("verMajor");
+    in.VersionMinor= payload.at("verMinor");
+    in.FileSize= payload.at("FileSize");
+    in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.StationUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
+    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
 
     in.ForStationsUUID.clear();
     // TODO
-    for(const auto& e : payload["ForStationsUUID"])
+    for(const auto& e : payload.at("ForStationsUUID"))
     {
         in.ForStationsUUID.emplace_back();
         if(!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.ForStationsUUID.back())){
@@ -341,60 +341,60 @@ bool HandleStringBool(const nlohmann::json& item)
 void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload, VectorworksMVR::IMVRxchangeService::IMVRxchangeMessage &in)
 {
     bool noUUIDError = true;
-    if (payload["Type"] == "MVR_JOIN")
+    if (payload.at("Type") == "MVR_JOIN")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_JOIN_RET")
+    else if (payload.at("Type") == "MVR_JOIN_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_JOIN_RET;
-        in.JOIN.VersionMajor = HandleStringNumber(payload["verMajor"]);
-        in.JOIN.VersionMinor = HandleStringNumber(payload["verMinor"]);
-        strcpy(in.JOIN.Provider, payload["Provider"].get<std::string>().c_str());
-        strcpy(in.JOIN.StationName, payload["StationName"].get<std::string>().c_str());
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["StationUUID"].get<std::string>(), in.JOIN.StationUUID);
+        in.JOIN.VersionMajor = HandleStringNumber(payload.at("verMajor"));
+        in.JOIN.VersionMinor = HandleStringNumber(payload.at("verMinor"));
+        in.JOIN.Provider = payload.at("Provider").get<std::string>().c_str();
+        in.JOIN.StationName = payload.at("StationName").get<std::string>().c_str();
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.JOIN.StationUUID);
 
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
 
         in.JOIN.Commits.clear();
-        for (auto &it : payload["Commits"])
+        for (auto &it : payload.at("Commits"))
         {
             in.JOIN.Commits.emplace_back();
             MVR_COMMIT_FromJson(it, in.JOIN.Commits.back());
         }
     }
-    else if (payload["Type"] == "MVR_COMMIT")
+    else if (payload.at("Type") == "MVR_COMMIT")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT;
         MVR_COMMIT_FromJson(payload, in.COMMIT);
     }
-    else if (payload["Type"] == "MVR_COMMIT_RET")
+    else if (payload.at("Type") == "MVR_COMMIT_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_COMMIT_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_REQUEST")
+    else if (payload.at("Type") == "MVR_REQUEST")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST;
-        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FileUUID"].get<std::string>(), in.REQUEST.FileUUID);
+        noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.REQUEST.FileUUID);
 
         in.REQUEST.FromStationUUID.clear();
         // TODO
-        for (const auto &e : payload["FromStationUUID"])
+        for (const auto &e : payload.at("FromStationUUID"))
         {
             in.REQUEST.FromStationUUID.emplace_back();
             if (!SceneData::GdtfConverter::ConvertUUID(e.get<std::string>(), in.REQUEST.FromStationUUID.back()))
@@ -403,29 +403,29 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
             }
         }
     }
-    else if (payload["Type"] == "MVR_REQUEST_RET")
+    else if (payload.at("Type") == "MVR_REQUEST_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }
-    else if (payload["Type"] == "MVR_LEAVE")
+    else if (payload.at("Type") == "MVR_LEAVE")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE;
         if ( payload.contains( "FromStationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload["FromStationUUID"].get<std::string>(), in.LEAVE.FromStationUUID);
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID(payload.at("FromStationUUID").get<std::string>(), in.LEAVE.FromStationUUID);
         }
         else if ( payload.contains( "StationUUID" ) )
         {
-            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload[ "StationUUID" ].get<std::string>(), in.LEAVE.FromStationUUID );
+            noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload.at("StationUUID").get<std::string>(), in.LEAVE.FromStationUUID );
         }
     }
-    else if (payload["Type"] == "MVR_LEAVE_RET")
+    else if (payload.at("Type") == "MVR_LEAVE_RET")
     {
         in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_LEAVE_RET;
-        in.RetIsOK = HandleStringBool(payload["OK"]);
-        strcpy(in.RetError, payload["Message"].get<std::string>().c_str());
+        in.RetIsOK = HandleStringBool(payload.at("OK"));
+        in.RetError = payload.at("Message").get<std::string>().c_str();
     }else{
         throw std::runtime_error("Unable to parse payload type correctly");
     }
-- 
2.43.0


From b0475e18480af8bdc0ea99fdcf2263e4910c1643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 09/52] fix: an untyped message or text that is not UTF-8 does
 not throw out of the message code

---
 src/mvrxchange/mvrxchange_message.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 6105e3f..982a8ac 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -268,7 +268,7 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
         break;
     }
 
-    MVRXCHANGE_LOG("sending message of type: " << payload["Type"].get<std::string>());
+    MVRXCHANGE_LOG("sending message of type: " << payload.value("Type", "undefined"));
 
     fFlag       = kMVR_Package_Flag;
     fVersion    = kMVR_Package_Version;
@@ -304,8 +304,8 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     }
     else
     {
-        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4));
-        std::string s = payload.dump();
+        MVRXCHANGE_DEBUG("outgoing message:\n" << payload.dump(4, ' ', false, nlohmann::json::error_handler_t::replace));
+        std::string s = payload.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);   // never throws on text that is not UTF-8
         fBodyLength = s.size();
         fType       = kMVR_Package_JSON_TYPE;
 
@@ -454,7 +454,7 @@ void MVRxchangePacket::ToExternalMessage(VectorworksMVR::IMVRxchangeService::IMV
             return;
         }
 
-        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type"))
+        if (payload.type() != nlohmann::json::value_t::object || !payload.contains("Type") || !payload["Type"].is_string())
         {
             in.Type = VectorworksMVR::IMVRxchangeService::MVRxchangeMessageType::MVR_UNDEFINED;
             in.RetIsOK = false;
-- 
2.43.0


From 6b917a7d7d4a0510f7d91a63a94addecb993d55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:32 +0000
Subject: [PATCH 10/52] fix: reject packages whose announced size cannot be
 held, and keep room for header and body

---
 src/mvrxchange/mvrxchange_client.cpp         |  6 +++++-
 src/mvrxchange/mvrxchange_dynamic_buffer.cpp |  8 +++-----
 src/mvrxchange/mvrxchange_message.cpp        | 12 +++++++++++-
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 605b92b..17ee7c4 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -46,7 +46,11 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
     
     if(res.success)
     {
-        res.message.DecodeHeader();
+        if(!res.message.DecodeHeader())
+        {
+            res.error = boost::system::errc::make_error_code(boost::system::errc::bad_message);
+            return res.success = false;
+        }
 
         boost::asio::async_read(fSocket,
         boost::asio::buffer(res.message.GetBody(), res.message.GetBodyLength()),
diff --git a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
index 71e8816..fdf5f00 100644
--- a/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
+++ b/src/mvrxchange/mvrxchange_dynamic_buffer.cpp
@@ -131,11 +131,9 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 	// When we already have enought memory, just copy
 	if (fAllocatedMemory < needToAllocate)
 	{
-		// Calculate the new needed buffer
-		fAllocatedMemory = needToAllocate;
-
 		// Create new Buffer
-		char* tempBuffer = new char[fAllocatedMemory];
+		char* tempBuffer = new char[needToAllocate];
+		fAllocatedMemory = needToAllocate;
 		if(fBuffer)
 		{
 			memcpy(tempBuffer, fBuffer, fBufferSize);
@@ -143,7 +141,7 @@ void MVRxchangeDynamicBuffer::GrowTo(size_t size)
 		}
 
 		// Set the new Buffer size
-		fBufferSize = fBufferSize + (size_t)size;
+		fBufferSize = size;
 
 		// Set the new Buffer
 		fBuffer = tempBuffer;
diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 982a8ac..2d9243e 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -114,7 +114,17 @@ bool MVRxchangePacket::DecodeHeader()
     fBodyLength = swap_endian(fBodyLength);
 
     // Prepare Buffer
-    fData->GrowTo(fBodyLength);
+    try
+    {
+        if (fBodyLength > std::numeric_limits<size_t>::max() - total_header_length - 1) { throw std::bad_alloc(); }
+        fData->GrowTo(total_header_length + fBodyLength);
+    }
+    catch (const std::bad_alloc&)
+    {
+        MVRXCHANGE_ERROR("Package is too large");
+        fBodyLength = 0;
+        return false;
+    }
 
     return true;
 }
-- 
2.43.0


From d01600a60f31590d58d8845534828bcf3849d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 11/52] fix: answer a file request with an error when the file
 cannot be read

---
 src/mvrxchange/mvrxchange_message.cpp | 51 +++++++++++++++++++--------
 src/mvrxchange/mvrxchange_message.h   |  1 +
 2 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index 2d9243e..bbe7429 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -285,7 +285,16 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     fNumber     = 0;
     fCount      = 1;
 
-    if(in.Type == IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET && in.RetIsOK)
+    bool sendFile = in.Type == IMVRxchangeService::MVRxchangeMessageType::MVR_REQUEST_RET && in.RetIsOK;
+    if(sendFile && !in.BufferToFile && !ReadFileToBody(in.PathToFile.fBuffer))
+    {
+        // Tell the other station, instead of sending something that is not the file
+        payload["OK"]       = false;
+        payload["Message"]  = "The file could not be read";
+        sendFile            = false;
+    }
+
+    if(sendFile)
     {
         if(in.BufferToFile)
         {
@@ -294,19 +303,6 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
             memcpy(GetBody(), in.BufferToFile, fBodyLength);
             delete[] in.BufferToFile;
         }
-        else
-        {
-            IFileIdentifierPtr file (IID_FileIdentifier);
-            file->Set(in.PathToFile.fBuffer);
-
-            Uint64 size = 0;
-            IRawOSFilePtr rawFile (IID_RawOSFile);
-            rawFile->Open(file, true, false, true, false);
-            rawFile->GetFileSize(fBodyLength);
-            fData->GrowTo(fBodyLength + total_header_length);
-            rawFile->Read(0, fBodyLength, GetBody());
-            rawFile->Close();
-        }
 
         fType       = kMVR_Package_BUFFER_TYPE;
 
@@ -326,6 +322,33 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
     EncodeHeader();
 }
 
+bool MVRxchangePacket::ReadFileToBody(const char* path)
+{
+    IFileIdentifierPtr file (IID_FileIdentifier);
+    IRawOSFilePtr rawFile (IID_RawOSFile);
+    if(VCOM_FAILED(file->Set(path)) || VCOM_FAILED(rawFile->Open(file, true, false, true, false))) { return false; }
+
+    bool isRead = false;
+    Uint64 size = 0;
+    if(VCOM_SUCCEEDED(rawFile->GetFileSize(size)))
+    {
+        try
+        {
+            fData->GrowTo(size + total_header_length);
+            Uint64 read = size;
+            isRead = VCOM_SUCCEEDED(rawFile->Read(0, read, GetBody())) && read == size;
+        }
+        catch (const std::bad_alloc&)
+        {
+            MVRXCHANGE_ERROR("File is too large");
+        }
+    }
+    rawFile->Close();
+
+    if(isRead) { fBodyLength = size; }
+    return isRead;
+}
+
 uint32_t HandleStringNumber(const nlohmann::json& item)
 {
     if(item.is_number())
diff --git a/src/mvrxchange/mvrxchange_message.h b/src/mvrxchange/mvrxchange_message.h
index c322f0e..eb2ffcd 100644
--- a/src/mvrxchange/mvrxchange_message.h
+++ b/src/mvrxchange/mvrxchange_message.h
@@ -47,6 +47,7 @@ namespace MVRxchangeNetwork
 
         private:
             void            Internal_ToExternalMessage(const nlohmann::json& payload, VectorworksMVR::IMVRxchangeService::IMVRxchangeMessage &in);
+            bool            ReadFileToBody(const char* path);
 
 
             uint32_t            fFlag;
-- 
2.43.0


From 590061e37633c1816e9328a9bb29b27009fe9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 12/52] fix: release the buffer of a sent file once

---
 src/mvrxchange/mvrxchange_message.cpp | 1 -
 src/mvrxchange/mvrxchange_session.cpp | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index bbe7429..d9fdcfd 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -301,7 +301,6 @@ void MVRxchangePacket::FromExternalMessage(const VectorworksMVR::IMVRxchangeServ
             fBodyLength = in.BufferToFileLength;
             fData->GrowTo(fBodyLength + total_header_length);
             memcpy(GetBody(), in.BufferToFile, fBodyLength);
-            delete[] in.BufferToFile;
         }
 
         fType       = kMVR_Package_BUFFER_TYPE;
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index edde755..d14b2d0 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -48,6 +48,7 @@ void MVRxchangeSession::DoRead()
                     
                     MVRxchangePacket in_msg;
                     in_msg.FromExternalMessage(in);
+                    delete[] in.BufferToFile;
                     Deliver(in_msg);
                 }
                 else
-- 
2.43.0


From b11ebe724fe05f3bf9577731c4688f5dfd5f1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:10 +0000
Subject: [PATCH 13/52] fix: a peer that resets its connection does not throw
 into the service threads

---
 src/mvrxchange/mvrxchange_client.cpp  | 6 ++++--
 src/mvrxchange/mvrxchange_server.cpp  | 4 +++-
 src/mvrxchange/mvrxchange_session.cpp | 6 ++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 17ee7c4..8210517 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -65,9 +65,11 @@ bool MVRxchangeClient::ReadMessage(SendResult& res, std::chrono::steady_clock::d
 
     if(res.success)
     {
+        boost::system::error_code remoteError; // the other side may already be gone
+        const tcp::endpoint remote = this->fSocket.remote_endpoint(remoteError);
         res.messageInfo = TCPMessageInfo {
-            this->fSocket.remote_endpoint().port(),
-            this->fSocket.remote_endpoint().address().to_string()
+            remote.port(),
+            remote.address().to_string()
         };
     }
 
diff --git a/src/mvrxchange/mvrxchange_server.cpp b/src/mvrxchange/mvrxchange_server.cpp
index 31f95fe..25ea62d 100644
--- a/src/mvrxchange/mvrxchange_server.cpp
+++ b/src/mvrxchange/mvrxchange_server.cpp
@@ -38,7 +38,9 @@ void MVRxchangeServer::DoAccept()
     {
         if (!ec)
         {
-            MVRXCHANGE_DEBUG("incoming message from: " << socket.remote_endpoint().address().to_string() << ":" << std::to_string(socket.remote_endpoint().port()));
+            boost::system::error_code remoteError; // the other side may already be gone
+            const tcp::endpoint remote = socket.remote_endpoint(remoteError);
+            MVRXCHANGE_DEBUG("incoming message from: " << remote.address().to_string() << ":" << std::to_string(remote.port()));
             auto session = std::make_shared<MVRxchangeSession>(std::move(socket), fImpl, this);
 
             AddSession(session);
diff --git a/src/mvrxchange/mvrxchange_session.cpp b/src/mvrxchange/mvrxchange_session.cpp
index d14b2d0..3097482 100644
--- a/src/mvrxchange/mvrxchange_session.cpp
+++ b/src/mvrxchange/mvrxchange_session.cpp
@@ -39,9 +39,11 @@ void MVRxchangeSession::DoRead()
                     IMVRxchangeService::IMVRxchangeMessage out;
                     fReadMsg.ToExternalMessage(out);
 
+                    boost::system::error_code remoteError; // the other side may already be gone
+                    const tcp::endpoint remote = this->fSocket.remote_endpoint(remoteError);
                     TCPMessageInfo info {
-                        this->fSocket.remote_endpoint().port(),
-                        this->fSocket.remote_endpoint().address().to_string()
+                        remote.port(),
+                        remote.address().to_string()
                     };
                     IMVRxchangeService::IMVRxchangeMessage in = fImpl->TCP_OnIncommingMessage(out, info);
                     delete[] out.BufferToFile;
-- 
2.43.0


From 83630c2842b2fca0f45c8c4193a2291a1786dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 14/52] fix: a peer that cannot be reached does not keep
 Send_message from the other ones

---
 src/mvrxchange/CMVRxchangeService.cpp | 27 ++++++++++++++++++++++-----
 src/mvrxchange/mvrxchange_client.cpp  |  6 +++++-
 src/mvrxchange/mvrxchange_client.h    |  4 ++--
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index bc1428a..cee8909 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -244,9 +244,9 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::Send_message(const SendMessage
 
 	//---------------------------------------------------------------------------------------------
 	// Send Message async to speed things up
-	std::vector<std::future<MVRxchangeNetwork::MVRxchangeClient::SendResult>> toAwait;
 	MVRxchangeNetwork::MVRxchangePacket out;
 	out.FromExternalMessage(messageHandler.Message);
+	std::vector<std::future<MVRxchangeNetwork::MVRxchangeClient::SendResult>> toAwait; // has to be gone before the packet
 	{
 		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
 
@@ -259,12 +259,29 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::Send_message(const SendMessage
 			uint16_t port = e.Port;
 			for(auto& ip : e.IP)
 			{
-				toAwait.push_back(std::async(std::launch::async, 
-				[this, ip, port, &out](){
+				auto send = [this, ip, port, &out](){
 					MVRxchangeNetwork::MVRxchangeClient::SendResult ret;
-					SendMessageToLocalNetworks(ip, port, out, ret);
+					try
+					{
+						SendMessageToLocalNetworks(ip, port, out, ret);
+					}
+					catch(const std::exception& e) // e.g. no more sockets
+					{
+						MVRXCHANGE_ERROR(e.what());
+						ret.success = false;
+						ret.error = boost::asio::error::no_descriptors;
+					}
 					return ret;
-				}));
+				};
+
+				try
+				{
+					toAwait.push_back(std::async(std::launch::async, send));
+				}
+				catch(const std::system_error&) // no more threads, send when awaited
+				{
+					toAwait.push_back(std::async(std::launch::deferred, send));
+				}
 			}
 		}
 	}
diff --git a/src/mvrxchange/mvrxchange_client.cpp b/src/mvrxchange/mvrxchange_client.cpp
index 8210517..34e069d 100644
--- a/src/mvrxchange/mvrxchange_client.cpp
+++ b/src/mvrxchange/mvrxchange_client.cpp
@@ -126,7 +126,11 @@ void MVRxchangeClient::Run(std::chrono::steady_clock::duration timeout)
 bool MVRxchangeClient::Connect(SendResult& res, const std::string& host, const std::string& service, std::chrono::steady_clock::duration timeout)
 {
     // Resolve the host name and service to a list of endpoints.
-    auto endpoints = tcp::resolver(fio_context).resolve(host, service);
+    auto endpoints = tcp::resolver(fio_context).resolve(host, service, res.error);
+    if(res.error)
+    {
+        return res.success = false;
+    }
 
     // Start the asynchronous operation itself. The lambda that is used as a
     // callback will update the error variable when the operation completes.
diff --git a/src/mvrxchange/mvrxchange_client.h b/src/mvrxchange/mvrxchange_client.h
index 528863f..1e25718 100644
--- a/src/mvrxchange/mvrxchange_client.h
+++ b/src/mvrxchange/mvrxchange_client.h
@@ -11,7 +11,7 @@ namespace MVRxchangeNetwork
 {
 	struct TCPMessageInfo
 	{
-		uint16_t port;
+		uint16_t port = 0;
 		std::string ip;
 	};
 
@@ -21,7 +21,7 @@ namespace MVRxchangeNetwork
     
     struct SendResult
     {
-        bool success;
+        bool success = false;
         boost::system::error_code error;
         TCPMessageInfo messageInfo;
         MVRxchangePacket message;
-- 
2.43.0


From b358f58537304b6e6c2bb4df788126f42d1d5b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 15/52] fix: a callback is never called with the context of
 another registration

---
 src/mvrxchange/CMVRxchangeService.cpp | 20 ++++++++++++++++----
 src/mvrxchange/CMVRxchangeService.h   |  2 ++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index cee8909..8a0cf15 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -213,11 +213,18 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::LeaveRemoteService()
 
 VCOMError VectorworksMVR::CMVRxchangeServiceImpl::OnMessage(OnMessageArgs& messageHandler)
 {
+	std::lock_guard<std::mutex> lock(fCallBackMutex);
 	fCallBack = messageHandler;
 
 	return kVCOMError_NoError;
 }
 
+IMVRxchangeService::OnMessageArgs CMVRxchangeServiceImpl::GetCallBack()
+{
+	std::lock_guard<std::mutex> lock(fCallBackMutex);
+	return fCallBack;
+}
+
 VCOMError VectorworksMVR::CMVRxchangeServiceImpl::Send_message(const SendMessageArgs& messageHandler)
 {
 	std::vector<MvrUUID> recipientFilter;
@@ -363,9 +370,10 @@ IMVRxchangeService::IMVRxchangeMessage CMVRxchangeServiceImpl::TCP_OnIncommingMe
 	}
 
 	IMVRxchangeService::IMVRxchangeMessage ret;
-	if (fCallBack.IncomingCallback)
+	const OnMessageArgs callBack = GetCallBack();
+	if (callBack.IncomingCallback)
 	{
-		ret = fCallBack.IncomingCallback(in, fCallBack.Context);
+		ret = callBack.IncomingCallback(in, callBack.Context);
 	}
 
 
@@ -442,9 +450,13 @@ void CMVRxchangeServiceImpl::TCP_OnReturningMessage(
 	if(messageArgs.CustomReturnCallback)
 	{
 		messageArgs.CustomReturnCallback(messageArgs.Message, in, messageArgs.CustomReturnContext);
-	}else if (fCallBack.ReturningCallback)
+		return;
+	}
+
+	const OnMessageArgs callBack = GetCallBack();
+	if (callBack.ReturningCallback)
 	{
-		fCallBack.ReturningCallback(messageArgs.Message, in, fCallBack.Context);
+		callBack.ReturningCallback(messageArgs.Message, in, callBack.Context);
 	}
 }
 
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index 83bed28..575de3e 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -91,6 +91,8 @@ namespace VectorworksMVR
 		void				ResolveJoin(const MvrUUID& stationUUID, size_t join);
 
 		OnMessageArgs  fCallBack;
+		std::mutex     fCallBackMutex;
+		OnMessageArgs  GetCallBack();
 		//---------------------------------------------------------------------------
 		// TCP Client - Local Network mode
 
-- 
2.43.0


From 4c11903c9250661f4d90435ec1691a26310db56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 16/52] fix: read mDNS packets within their bounds

---
 mdns_cpp/src/mdns.h | 46 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index e0af574..035db01 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -49,6 +49,7 @@ extern "C" {
 #define MDNS_PORT 5353
 #define MDNS_UNICAST_RESPONSE 0x8000U
 #define MDNS_CACHE_FLUSH 0x8000U
+#define MDNS_MAX_SUBSTRINGS 64
 
 enum mdns_record_type {
 	MDNS_RECORDTYPE_IGNORE = 0,
@@ -407,11 +408,16 @@ static mdns_string_pair_t
 mdns_get_next_substring(const void* rawdata, size_t size, size_t offset) {
 	const uint8_t* buffer = (const uint8_t*)rawdata;
 	mdns_string_pair_t pair = {MDNS_INVALID_POS, 0, 0};
+	if (offset >= size)
+		return pair;
 	if (!buffer[offset]) {
 		pair.offset = offset;
 		return pair;
 	}
-	if (mdns_is_string_ref(buffer[offset])) {
+	int recursion = 0;
+	while (mdns_is_string_ref(buffer[offset])) {
+		if (++recursion > 16)
+			return pair;
 		if (size < offset + 2)
 			return pair;
 
@@ -436,9 +442,10 @@ static int
 mdns_string_skip(const void* buffer, size_t size, size_t* offset) {
 	size_t cur = *offset;
 	mdns_string_pair_t substr;
+	unsigned int counter = 0;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (++counter > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (substr.ref) {
 			*offset = cur + 2;
@@ -460,10 +467,12 @@ mdns_string_equal(const void* buffer_lhs, size_t size_lhs, size_t* ofs_lhs, cons
 	size_t rhs_end = MDNS_INVALID_POS;
 	mdns_string_pair_t lhs_substr;
 	mdns_string_pair_t rhs_substr;
+	unsigned int counter = 0;
 	do {
 		lhs_substr = mdns_get_next_substring(buffer_lhs, size_lhs, lhs_cur);
 		rhs_substr = mdns_get_next_substring(buffer_rhs, size_rhs, rhs_cur);
-		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS))
+		if ((lhs_substr.offset == MDNS_INVALID_POS) || (rhs_substr.offset == MDNS_INVALID_POS) ||
+		    (++counter > MDNS_MAX_SUBSTRINGS))
 			return 0;
 		if (lhs_substr.length != rhs_substr.length)
 			return 0;
@@ -499,9 +508,10 @@ mdns_string_extract(const void* buffer, size_t size, size_t* offset, char* str,
 	result.length = 0;
 	char* dst = str;
 	size_t remain = capacity;
+	unsigned int counter = 0;
 	do {
 		substr = mdns_get_next_substring(buffer, size, cur);
-		if (substr.offset == MDNS_INVALID_POS)
+		if ((substr.offset == MDNS_INVALID_POS) || (++counter > MDNS_MAX_SUBSTRINGS))
 			return result;
 		if (substr.ref && (end == MDNS_INVALID_POS))
 			end = cur + 2;
@@ -600,7 +610,8 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 	int do_callback = (callback ? 1 : 0);
 	for (size_t i = 0; i < records; ++i) {
 		size_t name_offset = *offset;
-		mdns_string_skip(buffer, size, offset);
+		if (!mdns_string_skip(buffer, size, offset) || ((*offset) + 10 > size))
+			return parsed;
 		size_t name_length = (*offset) - name_offset;
 		const uint16_t* data = (const uint16_t*)((const char*)buffer + (*offset));
 
@@ -611,6 +622,8 @@ mdns_records_parse(int sock, const struct sockaddr* from, size_t addrlen, const
 		uint16_t length = ntohs(*data++);
 
 		*offset += 10;
+		if (length > size - (*offset))
+			return parsed;
 
 		if (do_callback) {
 			++parsed;
@@ -704,7 +717,7 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -737,6 +750,8 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		if (!mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
 		                       sizeof(mdns_services_query), &verify_ofs))
 			return 0;
+		if (ofs + 4 > data_size)
+			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 
 		uint16_t rtype = ntohs(*data++);
@@ -755,6 +770,13 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		size_t name_offset = ofs;
 		int is_answer = mdns_string_equal(buffer, data_size, &ofs, mdns_services_query,
 		                                  sizeof(mdns_services_query), &verify_ofs);
+		if (!is_answer) {
+			ofs = name_offset;
+			if (!mdns_string_skip(buffer, data_size, &ofs))
+				return records;
+		}
+		if (ofs + 10 > data_size)
+			return records;
 		size_t name_length = ofs - name_offset;
 		data = (uint16_t*)((char*)buffer + ofs);
 
@@ -763,8 +785,8 @@ mdns_discovery_recv(int sock, void* buffer, size_t capacity, mdns_record_callbac
 		uint32_t ttl = ntohl(*(uint32_t*)(void*)data);
 		data += 2;
 		uint16_t length = ntohs(*data++);
-		if (length >= (data_size - ofs))
-			return 0;
+		if (length > (data_size - ofs - 10))
+			return records;
 
 		if (is_answer && do_callback) {
 			++records;
@@ -798,7 +820,7 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -829,6 +851,8 @@ mdns_socket_listen(int sock, void* buffer, size_t capacity, mdns_record_callback
 			if (!mdns_string_skip(buffer, data_size, &offset))
 				break;
 		}
+		if (offset + 4 > data_size)
+			break;
 		size_t length = offset - question_offset;
 		data = (uint16_t*)((char*)buffer + offset);
 
@@ -947,7 +971,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	saddr->sa_len = sizeof(addr);
 #endif
 	int ret = recvfrom(sock, (char*)buffer, (mdns_size_t)capacity, 0, saddr, &addrlen);
-	if (ret <= 0)
+	if (ret < (int)sizeof(struct mdns_header_t))
 		return 0;
 
 	size_t data_size = (size_t)ret;
@@ -971,7 +995,7 @@ mdns_query_recv(int sock, void* buffer, size_t capacity, mdns_record_callback_fn
 	int i;
 	for (i = 0; i < questions; ++i) {
 		size_t ofs = (size_t)((char*)data - (char*)buffer);
-		if (!mdns_string_skip(buffer, data_size, &ofs))
+		if (!mdns_string_skip(buffer, data_size, &ofs) || (ofs + 4 > data_size))
 			return 0;
 		data = (uint16_t*)((char*)buffer + ofs);
 		uint16_t rtype = ntohs(*data++);
-- 
2.43.0


From 0c41360d98480dc0cfd674f5c5d7f5fc2ad838e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 17/52] fix: a service name that does not fit into an mDNS
 answer does not crash the responder

---
 mdns_cpp/src/mdns.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdns_cpp/src/mdns.h b/mdns_cpp/src/mdns.h
index 035db01..352711d 100644
--- a/mdns_cpp/src/mdns.h
+++ b/mdns_cpp/src/mdns.h
@@ -596,6 +596,8 @@ static void*
 mdns_string_make_with_ref(void* data, size_t capacity, const char* name, size_t length,
                           size_t ref_offset) {
 	void* remaindata = mdns_string_make(data, capacity, name, length);
+	if (!remaindata)
+		return 0;
 	capacity -= MDNS_POINTER_DIFF(remaindata, data);
 	if (!data || !capacity)
 		return 0;
@@ -906,6 +908,8 @@ mdns_discovery_answer(int sock, const void* address, size_t address_size, void*
 	uint8_t* record_data = (uint8_t*)data;
 	size_t remain = capacity - (sizeof(mdns_services_query) + 10);
 	record_data = (uint8_t*)mdns_string_make(record_data, remain, record, length);
+	if (!record_data)
+		return -1;
 	*record_length = htons((uint16_t)(record_data - (uint8_t*)data));
 	*record_data++ = 0;
 
-- 
2.43.0


From 2498965765a61ff381ffd8897f10a7369ca3de3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 18/52] fix: a signal does not end the mDNS responder or an
 mDNS query

---
 mdns_cpp/src/mdns.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index 2126d5f..dee9bc6 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -462,7 +462,7 @@ void mDNS::runMainLoop() {
         }
         FD_SET(sockets[isock], &readfs);
       }
-    } else {
+    } else if (errno != EINTR) {
       break;
     }
   }
@@ -532,7 +532,7 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
       }
 
       millisecondsDone = std::chrono::duration_cast<std::chrono::milliseconds>((std::chrono::steady_clock::now() - startPoint)).count();
-    } while (res > 0 && millisecondsDone < ITER_SEARCH_TIME * 1000);
+    } while ((res > 0 || (res < 0 && errno == EINTR)) && millisecondsDone < ITER_SEARCH_TIME * 1000);
 
     free(buffer);
   }
-- 
2.43.0


From 7db796ac5a07c19247cf543c2dbceef35c15eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 19/52] fix: the mDNS responder tries again when it cannot open
 its sockets

---
 mdns_cpp/src/mdns.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index dee9bc6..bdf8094 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -416,11 +416,13 @@ std::vector<std::pair<std::string, uint32_t>> mDNS::getInterfaces()
 void mDNS::runMainLoop() {
   constexpr size_t number_of_sockets = 32;
   int sockets[number_of_sockets];
-  const int num_sockets = openServiceSockets(sockets, sizeof(sockets) / sizeof(sockets[0]));
-  if (num_sockets <= 0) {
+  int num_sockets = openServiceSockets(sockets, sizeof(sockets) / sizeof(sockets[0]));
+  while (running_ && num_sockets <= 0) {
+    // e.g. the network is not up yet, so try again
     const auto msg = "Error: Failed to open any client sockets";
     MDNS_LOG << msg << "\n";
-    return;
+    std::this_thread::sleep_for(std::chrono::milliseconds(500));
+    num_sockets = openServiceSockets(sockets, sizeof(sockets) / sizeof(sockets[0]));
   }
 
   MDNS_LOG << "Opened " << std::to_string(num_sockets) << " socket" << (num_sockets ? "s" : "")
-- 
2.43.0


From 24f69cf117c09d6e35a73f4a8775ce585a3bdbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 20/52] fix: a station with a long name is announced with its
 UUID

---
 src/mvrxchange/CMVRxchangeService.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 8a0cf15..1388ce0 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -61,6 +61,15 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 	txt2 += "StationUUID=";
 	txt2 += SceneData::GdtfConverter::ConvertUUID(VWUUID(fCurrentService.StationUUID.a, fCurrentService.StationUUID.b, fCurrentService.StationUUID.c, fCurrentService.StationUUID.d)).GetStdString();
 
+	// All of the record has to fit into 255 bytes to be announced, so shorten the name if needed (at the start of a UTF-8 sequence)
+	const size_t maxName = 255 - 2 - txt2.size();
+	if(txt1.size() > maxName)
+	{
+		size_t length = maxName;
+		while(length > 0 && (txt1[length] & 0xC0) == 0x80) { length--; }
+		txt1.resize(length);
+	}
+
 	std::string txt;
 	txt += (uint8_t)txt1.size();
 	txt += txt1;
-- 
2.43.0


From 7f328eb0312daf92285ae8b644c8e1d656b527e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:15 +0000
Subject: [PATCH 21/52] fix: connecting to a service starts from the stations
 that are there now

---
 src/mvrxchange/CMVRxchangeService.cpp | 13 ++-----------
 src/mvrxchange/CMVRxchangeService.h   |  1 -
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1388ce0..3fdfcf4 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -95,16 +95,8 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 		fmdns.emplace_back(s);	// Pointer is now managed by the unique ptr and deleted upon fmdns going out of scope
 	}
 
-	bool doInit = false; // avoid deadlock with temp variable
-	{
-		std::lock_guard<std::mutex> lock(fQueryLocalServicesResult_mtx);
-		doInit = !fIsInitialized;
-	}
-
-	if(doInit)
-	{
-		this->mDNS_Client_Task();
-	}
+	// Stations may have come and gone since the last query
+	this->mDNS_Client_Task();
 
 	{
 		std::lock_guard<std::mutex> lock(fMvrGroupMutex);
@@ -708,7 +700,6 @@ void CMVRxchangeServiceImpl::mDNS_Client_Task()
 	{
 		std::lock_guard<std::mutex> lock (fQueryLocalServicesResult_mtx);
 		fQueryLocalServicesResult = result;
-		fIsInitialized = true;
 	}
 
 }
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index 575de3e..eb3733f 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -62,7 +62,6 @@ namespace VectorworksMVR
 
 		std::mutex 										fQueryLocalServicesResult_mtx;
 		std::vector<ConnectToLocalServiceArgs> 			fQueryLocalServicesResult;
-		bool											fIsInitialized = false;
 
 		MVRxchangeNetwork::MVRxchangeServer*			fServer;
 		ConnectToLocalServiceArgs						fCurrentService;
-- 
2.43.0


From 680b7f6b052ff95cc55a268af0ed7d1b6786b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 22/52] fix: two stations of one host are listed with their own
 names and UUIDs

---
 mdns_cpp/include/mdns_cpp/mdns.hpp |  4 +++-
 mdns_cpp/src/mdns.cpp              | 22 ++++++++++++++--------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/mdns_cpp/include/mdns_cpp/mdns.hpp b/mdns_cpp/include/mdns_cpp/mdns.hpp
index 90c3f65..ef27ce9 100644
--- a/mdns_cpp/include/mdns_cpp/mdns.hpp
+++ b/mdns_cpp/include/mdns_cpp/mdns.hpp
@@ -35,9 +35,10 @@ struct unsorted_query_part_t {
   std::string addr;
   std::string canonicalName;
   T data;
+  size_t packet = 0; // the packet it was received with
 
   unsorted_query_part_t() = default;
-  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data): addr(addr), canonicalName(canonicalName), data(data) {};
+  unsorted_query_part_t(const std::string& addr, const std::string& canonicalName, const T& data, size_t packet): addr(addr), canonicalName(canonicalName), data(data), packet(packet) {};
 
   bool operator==(const unsorted_query_part_t<T>& o) const{return addr == o.addr && canonicalName == o.canonicalName && data == o.data;};
 };
@@ -52,6 +53,7 @@ struct srv_record_t
   bool operator==(const srv_record_t& o) const {return port == o.port && name == o.name;};
 };
 struct unsorted_query_t {
+  size_t packet = 0; // counts the received packets
   std::vector<unsorted_query_part_t<srv_record_t>> srvRecords;
   std::vector<unsorted_query_part_t<std::string>> txtRecords;
   std::vector<unsorted_query_part_t<std::string>> aRecords;
diff --git a/mdns_cpp/src/mdns.cpp b/mdns_cpp/src/mdns.cpp
index bdf8094..7209093 100644
--- a/mdns_cpp/src/mdns.cpp
+++ b/mdns_cpp/src/mdns.cpp
@@ -255,7 +255,7 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
   if (rtype == MDNS_RECORDTYPE_PTR) 
   {
     mdns_string_t namestr = mdns_record_parse_ptr(data, size, record_offset, record_length, namebuffer, sizeof(namebuffer));
-    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr));
+    queryRes.ptrRecords.emplace_back(fromaddrstr, canonicalName, MDNS_STRING_FORMAT_STD(namestr), queryRes.packet);
   }
 
   if (rtype == MDNS_RECORDTYPE_SRV) 
@@ -265,26 +265,26 @@ static int query_callback(int sock, const struct sockaddr *from, size_t addrlen,
     queryRes.srvRecords.emplace_back(fromaddrstr, canonicalName, srv_record_t{
       srv.port,
       MDNS_STRING_FORMAT_STD(srv.name)
-    });
+    }, queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_A) 
   {
     struct sockaddr_in addr;
     mdns_record_parse_a(data, size, record_offset, record_length, &addr);
     std::string ip = ipv4AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_AAAA) 
   {
     struct sockaddr_in6 addr;
     mdns_record_parse_aaaa(data, size, record_offset, record_length, &addr);
     std::string ip = ipv6AddressToString(namebuffer, sizeof(namebuffer), &addr, sizeof(addr));
-    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip));
+    queryRes.aaaaRecords.emplace_back(fromaddrstr, canonicalName, std::move(ip), queryRes.packet);
   } 
   else if (rtype == MDNS_RECORDTYPE_TXT) 
   {
     std::string txtString((const char*)data + record_offset, record_length);
-    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString));
+    queryRes.txtRecords.emplace_back(fromaddrstr, canonicalName, std::move(txtString), queryRes.packet);
   }
 
 
@@ -528,6 +528,7 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
       if (res > 0) {
         for (int isock = 0; isock < num_sockets; ++isock) {
           if (FD_ISSET(sockets[isock], &readfs)) {
+            queryRes.packet++;
             mdns_query_recv(sockets[isock], buffer, capacity, query_callback, user_data, query_id[isock]);
           }
         }
@@ -583,13 +584,18 @@ QueryResList mDNS::executeQuery2(const std::string &service) {
     outItem.mdnsAddress = it->addr;
     outItem.port = it->data.port;
 
+    // several stations of one address may use the same names, so prefer the text that was sent along with the port
+    const unsorted_query_part_t<std::string>* txt = nullptr;
     for(auto& t : queryRes.txtRecords)
     {
-      if(testQueryPart(t, *it)){
-        outItem.txt = t.data;
-        break;
+      if(testQueryPart(t, *it) && (!txt || (t.packet == it->packet && txt->packet != it->packet))){
+        txt = &t;
       }
     }
+    if(txt)
+    {
+      outItem.txt = txt->data;
+    }
 
     for(auto& t : queryRes.aRecords)
     {
-- 
2.43.0


From 1daacef20c76e49a0b0111429599abde8a06cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 23/52] fix: a commit or leave message whose UUIDs cannot be
 read is reported as failed

---
 src/mvrxchange/mvrxchange_message.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/mvrxchange/mvrxchange_message.cpp b/src/mvrxchange/mvrxchange_message.cpp
index d9fdcfd..1a5f25d 100644
--- a/src/mvrxchange/mvrxchange_message.cpp
+++ b/src/mvrxchange/mvrxchange_message.cpp
@@ -184,8 +184,11 @@ void MVR_COMMIT_FromJson(const nlohmann::json& payload, IMVRxchangeService::MVR_
     in.FileSize= payload.at("FileSize");
     in.FileName = payload.at("FileName").get<std::string>().c_str();
 
-    SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID);
-    SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID);
+    if(!SceneData::GdtfConverter::ConvertUUID(payload.at("FileUUID").get<std::string>(), in.FileUUID) ||
+       !SceneData::GdtfConverter::ConvertUUID(payload.at("StationUUID").get<std::string>(), in.StationUUID))
+    {
+        throw std::runtime_error("Unable to parse UUID correctly");
+    }
 
     in.ForStationsUUID.clear();
     // TODO
@@ -452,6 +455,10 @@ void MVRxchangePacket::Internal_ToExternalMessage(const nlohmann::json& payload,
         {
             noUUIDError = SceneData::GdtfConverter::ConvertUUID( payload.at("StationUUID").get<std::string>(), in.LEAVE.FromStationUUID );
         }
+        else
+        {
+            noUUIDError = false;
+        }
     }
     else if (payload.at("Type") == "MVR_LEAVE_RET")
     {
-- 
2.43.0


From 64fc43d7d89a9f01ff48d60305cb9df7e91001eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 24/52] fix: text that is not valid Unicode is converted
 instead of throwing on Linux

---
 src/GSString.cpp | 45 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index 05cbb36..e460269 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -26,6 +26,7 @@
 #elif GS_LIN
 #include <cstring>
 #include <string>
+#include <stdexcept>
 #include <algorithm>
 #else
 //#include <AppKit/AppKit.h>
@@ -2408,7 +2409,22 @@ void TXString::PrepareCharBuffer(ETXEncoding encoding) const
 	}
 
 	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> convert;
-	std::string str = convert.to_bytes(stdUStr);
+	std::string str;
+	try
+	{
+		str = convert.to_bytes(stdUStr);
+	}
+	catch (const std::range_error&)
+	{
+		// Half of a surrogate pair has no UTF-8 form, so replace it
+		for (size_t i = 0; i < stdUStr.length(); ++i)
+		{
+			const bool isPair = i + 1 < stdUStr.length() && (stdUStr[i] & 0xFC00) == 0xD800 && (stdUStr[i + 1] & 0xFC00) == 0xDC00;
+			if (isPair) { str += convert.to_bytes(stdUStr.substr(i, 2)); ++i; }
+			else if ((stdUStr[i] & 0xF800) == 0xD800) { str += '?'; }
+			else { str += convert.to_bytes(stdUStr[i]); }
+		}
+	}
 
 	size_t strLen = str.size();
 	for (size_t i = 0; i < charBufSize && i < strLen; i++)
@@ -2525,8 +2541,31 @@ void TXString::SetStdUStrFromCharBuffer(const char* src, size_t srcLenToUse, ETX
 #elif GS_LIN
 	// LINUX_IMPLEMENTATION - done
 	std::wstring_convert<std::codecvt_utf8_utf16<char16_t>, char16_t> converter;
-	std::string strSrc = std::string(src, strLen);
-	stdUStr = converter.from_bytes(strSrc);
+	try
+	{
+		stdUStr = converter.from_bytes(src, src + strLen);
+	}
+	catch (const std::range_error&)
+	{
+		// Not valid UTF-8: keep the characters that are, and replace the others
+		stdUStr.clear();
+		for (size_t i = 0; i < strLen; )
+		{
+			const unsigned char c = (unsigned char)src[i];
+			const size_t charLen = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : 4;
+			try
+			{
+				if (charLen > strLen - i) { throw std::range_error("incomplete character"); }
+				stdUStr += converter.from_bytes(src + i, src + i + charLen);
+				i += charLen;
+			}
+			catch (const std::range_error&)
+			{
+				stdUStr += u'?';
+				i++;
+			}
+		}
+	}
 #else	// Mac
 	if(encoding == ETXEncoding::eUTF8)
 	{
-- 
2.43.0


From 4bf19a0769685e9122b64470724863c313c88446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:39 +0000
Subject: [PATCH 25/52] fix: a station whose address ends with .127 is
 announced

---
 src/mvrxchange/CMVRxchangeService.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 3fdfcf4..1f63f35 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -81,7 +81,7 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 		// Bitmasking IP Address to check if it is 127.x.x.x
 		// We dont want to start the mDNS Server on loopback addresses
 		// If two programs on the same device want to connect, they can use one of the other interfaces as well
-		if((e.second & 4278190080) == 2130706432) {
+		if((ntohl(e.second) & 4278190080) == 2130706432) {
 			continue;
 		}
 	
-- 
2.43.0


From 2058a48668e6e12943d0f82b07aa53f291ba0736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 26/52] fix: connecting to a group reports failure when sockets
 or threads cannot be created

---
 src/mvrxchange/CMVRxchangeService.cpp | 22 +++++++++++++++++++---
 src/mvrxchange/CMVRxchangeService.h   |  1 +
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/mvrxchange/CMVRxchangeService.cpp b/src/mvrxchange/CMVRxchangeService.cpp
index 1f63f35..4ae2f6a 100644
--- a/src/mvrxchange/CMVRxchangeService.cpp
+++ b/src/mvrxchange/CMVRxchangeService.cpp
@@ -46,6 +46,24 @@ void FilterServiceName(MVRxchangeString& service)
 VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const ConnectToLocalServiceArgs& service)
 {
 	this->LeaveLocalService();
+
+	try
+	{
+		this->StartLocalService(service);
+	}
+	catch(const std::exception& e) // e.g. no more sockets or threads
+	{
+		MVRXCHANGE_ERROR(e.what());
+		this->LeaveLocalService();
+		return kVCOMError_Failed;
+	}
+
+	return kVCOMError_NoError;
+}
+
+
+void VectorworksMVR::CMVRxchangeServiceImpl::StartLocalService(const ConnectToLocalServiceArgs& service)
+{
 	//---------------------------------------------------------------------------------------------
 	// Start TCP
 	fCurrentService = service;
@@ -86,13 +104,13 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 		}
 	
 		mdns_cpp::mDNS* s = new mdns_cpp::mDNS();
+		fmdns.emplace_back(s);	// Pointer is now managed by the unique ptr and deleted upon fmdns going out of scope
 		s->setServiceHostname(std::string(fCurrentService.Service.fBuffer));
 		s->setServicePort(fServer->GetPort());
 		s->setServiceIP(e.second);
 		s->setServiceName(MVRXChange_Service);
 		s->setServiceTxtRecord(txt);
 		s->startService();
-		fmdns.emplace_back(s);	// Pointer is now managed by the unique ptr and deleted upon fmdns going out of scope
 	}
 
 	// Stations may have come and gone since the last query
@@ -127,8 +145,6 @@ VCOMError VectorworksMVR::CMVRxchangeServiceImpl::ConnectToLocalService(const Co
 	}
 
 	mDNS_Client_Start();
-
-	return kVCOMError_NoError;
 }
 
 
diff --git a/src/mvrxchange/CMVRxchangeService.h b/src/mvrxchange/CMVRxchangeService.h
index eb3733f..d2ec1ad 100644
--- a/src/mvrxchange/CMVRxchangeService.h
+++ b/src/mvrxchange/CMVRxchangeService.h
@@ -66,6 +66,7 @@ namespace VectorworksMVR
 		MVRxchangeNetwork::MVRxchangeServer*			fServer;
 		ConnectToLocalServiceArgs						fCurrentService;
 
+		void StartLocalService(const ConnectToLocalServiceArgs& service);
 		void TCP_Start();
 		void TCP_Stop();
 	public:
-- 
2.43.0


From ba429738a72c8f5a37fa55290a9ab4a739055c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 27/52] fix: the size of a file is not taken from a failed
 ftell

---
 src/Wrapper/RawOSFileimpl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Wrapper/RawOSFileimpl.cpp b/src/Wrapper/RawOSFileimpl.cpp
index 588e02d..9f107fe 100644
--- a/src/Wrapper/RawOSFileimpl.cpp
+++ b/src/Wrapper/RawOSFileimpl.cpp
@@ -71,8 +71,12 @@ VCOMError CRawOSFileImpl::GetFileSize(Uint64& outValue)
 	// we dont care about chaning the position as this class requires possition when reading/writing
 	if ( std::fseek( fTheFile, 0, SEEK_END ) == 0 )
 	{
-		outValue = std::ftell( fTheFile );
-		result = kVCOMError_NoError;
+		const long size = std::ftell( fTheFile );
+		if ( size >= 0 )
+		{
+			outValue = size;
+			result = kVCOMError_NoError;
+		}
 	}
 
 	return result;
-- 
2.43.0


From 56aa0122ba7388684de9bdb965ccb45afe15e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 28/52] fix: a zip archive that cannot be read or written
 completely is reported as failed

---
 src/Wrapper/ZIPFileBuffer.cpp | 55 ++++++++++++++++++++++++++++-------
 src/Wrapper/ZIPFileImpl.cpp   |  9 +++---
 2 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/Wrapper/ZIPFileBuffer.cpp b/src/Wrapper/ZIPFileBuffer.cpp
index baaa00f..e88f125 100644
--- a/src/Wrapper/ZIPFileBuffer.cpp
+++ b/src/Wrapper/ZIPFileBuffer.cpp
@@ -13,6 +13,7 @@ ZIPFileBuffer::ZIPFileBuffer()
 	fpZIPFileBuffer		 = nullptr;
 	fZIPFileBufferSize	 = 0;
 	fAllocatedMemorySize = 0;
+	fOpenForRead		 = true;
 }
 
 ZIPFileBuffer::~ZIPFileBuffer()
@@ -30,23 +31,42 @@ VCOMError ZIPFileBuffer::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 	fOpenForRead   = openForRead;
 	fpOpenedFileID = pFileID;
 
+	this->CleanBuffer();
+
 	if (fOpenForRead)
 	{
 		// prepare file
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(pFileID, true, false, false, false);
+		if (VCOM_FAILED(file->Open(pFileID, true, false, false, false)))
+			return kVCOMError_Failed;
 
 		// get filesize
-		file->GetFileSize(fZIPFileBufferSize);
+		Uint64 fileSize = 0;
+		if (VCOM_FAILED(file->GetFileSize(fileSize)))
+		{
+			file->Close();
+			return kVCOMError_Failed;
+		}
+
 		// load in buffer
-		fpZIPFileBuffer      = new Uint8[fZIPFileBufferSize];
-		fAllocatedMemorySize = fZIPFileBufferSize;
-		file->Read(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		Uint64 readSize      = fileSize;
+		fpZIPFileBuffer      = new Uint8[fileSize];
+		const VCOMError read = file->Read(0, readSize, fpZIPFileBuffer);
 
 		// close file
 		file->Close();
+
+		// only the complete file counts
+		if (VCOM_FAILED(read) || readSize != fileSize)
+		{
+			this->CleanBuffer();
+			return kVCOMError_Failed;
+		}
+
+		fZIPFileBufferSize   = fileSize;
+		fAllocatedMemorySize = fileSize;
 	}
 
 	return kVCOMError_NoError ;
@@ -56,6 +76,8 @@ VCOMError ZIPFileBuffer::Open(const char* buffer, size_t length)
 {
 	fOpenForRead   = true;
 
+	this->CleanBuffer();
+
 	if (fOpenForRead)
 	{
 		fZIPFileBufferSize = length;
@@ -69,18 +91,23 @@ VCOMError ZIPFileBuffer::Open(const char* buffer, size_t length)
 
 VCOMError ZIPFileBuffer::Close()
 {
-	if (!fOpenForRead && fpZIPFileBuffer)
+	// an archive that was opened without a path only lives in memory
+	if (!fOpenForRead && fpZIPFileBuffer && fpOpenedFileID && VCOM_SUCCEEDED(fpOpenedFileID->IsSet()))
 	{
 		// prepare file
 		IRawOSFilePtr file(IID_RawOSFile);
 
 		// open file
-		file->Open(fpOpenedFileID, false, true, false, false);
+		if (VCOM_FAILED(file->Open(fpOpenedFileID, false, true, false, false)))
+			return kVCOMError_Failed;
 
-		file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
+		const VCOMError written = file->Write(0, fZIPFileBufferSize, fpZIPFileBuffer);
 
 		// close file
-		file->Close();
+		const VCOMError closed = file->Close();
+
+		if (VCOM_FAILED(written) || VCOM_FAILED(closed))
+			return kVCOMError_Failed;
 	}
 
 	return kVCOMError_NoError;
@@ -94,7 +121,15 @@ VCOMError ZIPFileBuffer::GetFileSize(Uint64& outValue)
 
 VCOMError ZIPFileBuffer::Read(Uint64 position, Uint64& inoutSize, void* pOutBuffer)
 {
-	memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
+	if (position > fZIPFileBufferSize || inoutSize > fZIPFileBufferSize - position)
+	{
+		inoutSize = 0;
+		return kVCOMError_Failed;
+	}
+
+	if (inoutSize)
+		memcpy(pOutBuffer, fpZIPFileBuffer + position, (size_t)inoutSize);
+
 	return kVCOMError_NoError;
 }
 
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 3c3944e..bc52a2a 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -145,7 +145,7 @@ VCOMError CZIPFileImpl::OpenRead(IFileIdentifier* pFileID)
 	fbOpenedWrite		= false;
 
 	fpOpenedFile = new ZIPFileBuffer();
-	fpOpenedFile->Open( pFileID, true );
+	const VCOMError err = fpOpenedFile->Open( pFileID, true );
 	fpOpenedFileID = pFileID;
 
 	IFolderIdentifierPtr pFolderID( IID_FolderIdentifier );
@@ -153,7 +153,7 @@ VCOMError CZIPFileImpl::OpenRead(IFileIdentifier* pFileID)
 	pFolderID->GetFullPath( fFolderPath );
 	pFileID->GetFileFullPath( fOpenedFileFullPath );
 
-	return kVCOMError_NoError;
+	return err;
 }
 
 VCOMError CZIPFileImpl::OpenRead(const char* buffer, size_t length)
@@ -220,14 +220,15 @@ VCOMError CZIPFileImpl::OpenNewWrite(IFileIdentifier* pFileID, bool compressFile
 
 VCOMError CZIPFileImpl::Close()
 {
+	VCOMError err = kVCOMError_NoError;
 	if ( fpOpenedFile )
 	{
-		fpOpenedFile->Close();
+		err = fpOpenedFile->Close();
 		fbOpenedWrite		= false;
 		fOpenedFileFullPath = "";
 		fFolderPath			= "";
 	}
-	return kVCOMError_NoError;
+	return err;
 }
 
 VCOMError CZIPFileImpl::ToBuffer(char*& p, size_t& inLength)
-- 
2.43.0


From 76d9d00c81a812d20e77ec6f7b7f8aaaa667663b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 29/52] fix: a damaged zip archive is rejected instead of read
 out of bounds or delivered with wrong content

---
 src/Wrapper/ZIPFileImpl.cpp | 126 ++++++++++++++++++++++--------------
 src/Wrapper/ZIPFileImpl.h   |   3 +-
 2 files changed, 81 insertions(+), 48 deletions(-)

diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index bc52a2a..d6faed7 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -263,6 +263,9 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 	if ( path != "" )
 	{
 		this->GetFileCentralHeaderPosition( path, currentReadPosition );
+		if ( !currentReadPosition )
+			return kVCOMError_Failed;
+
 		currentReadPosition += ( 6 * kShortLength ) + ( 4 * kLongLength );
 
 		Uint16 fileNameLength = 0;
@@ -275,28 +278,49 @@ VCOMError CZIPFileImpl::GetNextFile(const std::string& path, std::string& outPat
 		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ) + fileNameLength + extraFieldLength + fileCommentLength;
 	}
 
-	Uint32 signature;
-	this->ReadLong( signature, currentReadPosition );
-	if ( signature != kCentralDirSignature )
-		err =  kVCOMError_False;
-
-	if ( err == kVCOMError_NoError )
+	bool bFound = false;
+	while ( !bFound && err == kVCOMError_NoError )
 	{
+		const Uint32 headerPosition = currentReadPosition;
+		Uint32 signature;
+		this->ReadLong( signature, currentReadPosition );
+		if ( signature != kCentralDirSignature )
+		{
+			// only these may follow the last entry of the central directory
+			const bool bEnd = signature == kEndSignature || signature == kZip64EndSignature || signature == kDigitalSignature;
+			err = bEnd ? kVCOMError_False : kVCOMError_Failed;
+			break;
+		}
+
 		Uint16 fileNameLength = 0;
+		Uint16 extraFieldLength = 0;
+		Uint16 fileCommentLength = 0;
 		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // the file name length will be found here
 		this->ReadShort( fileNameLength, currentReadPosition );
-		currentReadPosition += ( 4 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
+		this->ReadShort( extraFieldLength, currentReadPosition );
+		this->ReadShort( fileCommentLength, currentReadPosition );
+		currentReadPosition += ( 2 * kShortLength ) + ( 2 * kLongLength ); // the file name will be found here
+
+		std::string fileName( fileNameLength, '\0' );
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
-		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) fReadFileName );
+		this->ReadFromFile( currentReadPosition, inOutReadSize, (void*) &fileName[0] );
 
-		if ( ( (size_t)inOutReadSize == fileNameLength ) &&  0 != strcmp(fReadFileName, ""))
+		if ( fileNameLength == 0 || inOutReadSize != fileNameLength )
 		{
-			outPath  = std::string( fReadFileName, fileNameLength );
+			err = kVCOMError_Failed;
+			break;
 		}
-		else 
+
+		// an entry is addressed by its name, so a second one with the same name can only be skipped
+		Uint32 firstPosition = 0;
+		this->GetFileCentralHeaderPosition( fileName, firstPosition );
+		if ( firstPosition == headerPosition )
 		{
-			err = kVCOMError_Failed;
+			outPath = fileName;
+			bFound = true;
 		}
+
+		currentReadPosition += extraFieldLength + fileCommentLength;
 	}
 
 	return err;
@@ -415,10 +439,16 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 		return kVCOMError_NotInitialized;
 	
 	SZIPFileInfo fileInfo;
-	this->GetFileInfo( path, fileInfo );
+	if ( VCOM_FAILED( this->GetFileInfo( path, fileInfo ) ) )
+		return kVCOMError_Failed;
 	
 	Uint32 currentReadPosition = fileInfo.dwOffsetOfLocalHeader;
-	currentReadPosition += ( 5 * kShortLength ) + ( 4 * kLongLength ); // start of variable data
+	Uint32 signature;
+	this->ReadLong( signature, currentReadPosition );
+	if ( signature != kLocalFileInfoSignature )
+		return kVCOMError_Failed;
+
+	currentReadPosition += ( 5 * kShortLength ) + ( 3 * kLongLength ); // start of variable data
 
 	Uint16 fileNameLength = 0;
 	Uint16 extraFieldLength = 0;
@@ -428,6 +458,11 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 
 	currentReadPosition += fileNameLength + extraFieldLength;
 
+	Uint64 archiveSize = 0;
+	this->GetSize( archiveSize );
+	if ( (Uint64)currentReadPosition + fileInfo.dwCompressedSize > archiveSize )
+		return kVCOMError_Failed;
+
 	// read the raw data
 	char* readData = new char[ fileInfo.dwCompressedSize ]; 
 	Uint64 inOutReadSize = (Uint64)fileInfo.dwCompressedSize;
@@ -452,6 +487,18 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 
 	if ( readData )
 		delete [] readData;
+
+	// check that this is the content that was stored
+	if ( err == kVCOMError_NoError )
+	{
+		size_t dataSize = 0;
+		outputBuffer->GetDataSize( dataSize );
+		std::vector<Uint8> data( dataSize + 1 );
+		outputBuffer->CopyDataInto( data.data(), dataSize );
+
+		if ( dataSize != fileInfo.dwUncompressedSize || crc32( crc32(0L, Z_NULL, 0), data.data(), dataSize ) != fileInfo.dwCRC )
+			err = kVCOMError_Failed;
+	}
 					
 	return err;
 }
@@ -1004,19 +1051,12 @@ bool CZIPFileImpl::Read( IZIPFileIOBuffer* outputBuffer, IFileIdentifier* pFileI
 
 void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 {
+	outRead = 0;
 	if ( fpOpenedFile )
 	{
-		Uint64 length = 0;
-		this->fpOpenedFile->GetFileSize(length);
-
-		if(currentReadPosition >= length)
-		{
-			outRead = 0;
-		}
-		else
+		Uint64 size = sizeof(Uint32);
+		if ( VCOM_SUCCEEDED( fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead ) ) )
 		{
-			Uint64 size = sizeof(Uint32);
-			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
 			currentReadPosition +=sizeof(Uint32);
 		}
 	}
@@ -1024,19 +1064,12 @@ void CZIPFileImpl::ReadLong( Uint32& outRead, Uint32& currentReadPosition )
 
 void CZIPFileImpl::ReadShort( Uint16& outRead, Uint32& currentReadPosition )
 {
+	outRead = 0;
 	if ( fpOpenedFile )
 	{
-		Uint64 length = 0;
-		this->fpOpenedFile->GetFileSize(length);
-
-		if(currentReadPosition >= length)
+		Uint64 size = sizeof(Uint16);
+		if ( VCOM_SUCCEEDED( fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead ) ) )
 		{
-			outRead = 0;
-		}
-		else
-		{
-			Uint64 size = sizeof(Uint16);
-			fpOpenedFile->Read( currentReadPosition, size, (void*)&outRead );
 			currentReadPosition +=sizeof(Uint16);
 		}
 	}
@@ -1198,13 +1231,12 @@ void CZIPFileImpl::GetFileLocalHeaderPosition( const std::string& path, Uint32&
 		return;
 
 	bool bFound = false;
-	bool bError = false;
-	while ( !bFound && !bError)
+	while ( !bFound )
 	{
 		Uint32 signature;
 		this->ReadLong( signature, currentReadPosition );
 		if ( signature != kCentralDirSignature )
-			bError = true;
+			break;
 
 		currentReadPosition += ( 6 * kShortLength ) + (3 * kLongLength); // start of variable length data ( file name, extra field and comment lengths )
 
@@ -1220,15 +1252,15 @@ void CZIPFileImpl::GetFileLocalHeaderPosition( const std::string& path, Uint32&
 	
 		this->ReadLong( localHeaderOffset, currentReadPosition );
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
-		this->ReadFromFile( currentReadPosition, inOutReadSize, fReadFileName );
+		std::string fileName( fileNameLength, '\0' );
+		this->ReadFromFile( currentReadPosition, inOutReadSize, &fileName[0] );
 
 		if ( inOutReadSize != fileNameLength )
 		{
-			bError = true;
-			return;
+			break;
 		}
 
-		if (((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
+		if ( fileName == path )
 		{
 			outPosition = localHeaderOffset;
 			bFound = true;
@@ -1250,14 +1282,13 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 		return;
 
 	bool bFound = false;
-	bool bError = false;
-	while ( !bFound && !bError )
+	while ( !bFound )
 	{
 		Uint32 startOffset = (Uint32)currentReadPosition;
 		Uint32 signature;
 		this->ReadLong( signature, currentReadPosition );
 		if ( signature != kCentralDirSignature )
-			bError = true;
+			break;
 
 		currentReadPosition += ( 6 * kShortLength ) + ( 3 * kLongLength ); // start of variable length data ( file name, extra field and comment lengths )
 		Uint16 fileNameLength		= 0;
@@ -1274,14 +1305,15 @@ void CZIPFileImpl::GetFileCentralHeaderPosition( const std::string& path, Uint32
 
 		this->ReadLong( localHeaderOffset, currentReadPosition );
 		Uint64 inOutReadSize = (Uint64)fileNameLength;
-		this->ReadFromFile( currentReadPosition, inOutReadSize, fReadFileName );
+		std::string fileName( fileNameLength, '\0' );
+		this->ReadFromFile( currentReadPosition, inOutReadSize, &fileName[0] );
 		
 		if ( inOutReadSize != fileNameLength )
 		{
-			bError = true;
+			break;
 		}
 
-		if (((size_t)path.size() == fileNameLength ) &&  0 == memcmp(fReadFileName, path.c_str(), fileNameLength))
+		if ( fileName == path )
 		{
 			bFound = true;
 			outPosition = startOffset;
diff --git a/src/Wrapper/ZIPFileImpl.h b/src/Wrapper/ZIPFileImpl.h
index 2fbdadb..ee3274c 100644
--- a/src/Wrapper/ZIPFileImpl.h
+++ b/src/Wrapper/ZIPFileImpl.h
@@ -21,6 +21,8 @@ namespace VectorworksMVR
 	const Uint64 kLocalFileInfoSignature	= 0x04034b50L;
 	const Uint64 kCentralDirSignature		= 0x02014b50L;
 	const Uint64 kEndSignature				= 0x06054b50L;
+	const Uint64 kZip64EndSignature			= 0x06064b50L;
+	const Uint64 kDigitalSignature			= 0x05054b50L;
 	const Uint64 kExtraDataSignature		= 0x08074b50L;
 
 		struct SZIPArchiveInfo
@@ -131,7 +133,6 @@ namespace VectorworksMVR
 
 			TXString						fOpenedFileFullPath;
 			TXString						fFolderPath;
-			char							fReadFileName[1024];
 		private:
 			static VCOMError				fLastError;
 
-- 
2.43.0


From 8cc0e342738eeed50ec9256c68c0d73e44102e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 30/52] fix: an export that could not store everything reports
 failure

---
 src/GDTFManager.cpp                           |  9 ++--
 src/Implementation/CGdtfFixture.cpp           | 19 +++----
 .../CMediaRessourceVectorImpl.cpp             |  3 +-
 src/SceneDataExchange.cpp                     | 51 +++++++++++--------
 src/Wrapper/RawOSFileimpl.cpp                 | 22 ++++++--
 src/Wrapper/RawOSFileimpl.h                   |  1 +
 src/Wrapper/ZIPFileImpl.cpp                   | 40 ++++++++-------
 src/XmlFileHelper.cpp                         | 21 +++++---
 src/XmlFileHelper.h                           |  2 +-
 9 files changed, 100 insertions(+), 68 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6d3c762..709f2bf 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -9879,7 +9879,7 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 	//------------------------------------------------------------------------------------
 	// Write to disk
 	SceneData::IXMLFileIOBufferImpl buffer;
-	xmlFile->WriteBuffer( &buffer, eXMLEncoding_UTF8);
+	bool complete = VCOM_SUCCEEDED(xmlFile->WriteBuffer( &buffer, eXMLEncoding_UTF8));
 	
 	
 	// Prepare Temp Storage for ZIP buffer
@@ -9898,7 +9898,7 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 	
 	//------------------------------------------------------------------------------------
 	// Add to ZIP
-	SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
+	complete &= SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
 
 	//------------------------------------------------------------------------------------
 	// Add meshes
@@ -9926,13 +9926,14 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 		{
 			CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
 			bufferzip->SetData((void*)it->second.first, it->second.second);
-			zipfile->AddFile(strFileName, bufferzip);
+			const VCOMError added = zipfile->AddFile(strFileName, bufferzip);
+			complete &= VCOM_SUCCEEDED(added) || added == kVCOMError_InvalidArg; // one that is already in the archive under this name stays
 
 			delete bufferzip;
 		}
 	}
 	
-	return true;
+	return complete;
 }
 
 
diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 30bb1cb..7ddac51 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -63,7 +63,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::OpenForWrite(MvrStri
 	
 	// Create the file pointer on the full path
 	IFileIdentifierPtr file (IID_FileIdentifier);
-	file->Set(strFullPath);
+	if(VCOM_FAILED(file->Set(strFullPath)) && !strFullPath.IsEmpty()) { return kVCOMError_Failed; }
 	
 	bool fileExists = false;
 	file->ExistsOnDisk(fileExists);
@@ -155,10 +155,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddFileToGdtfFile(Mv
     // Append the SubFoldername for resources.
     strFileName = SceneData::SceneDataZip::GetResourceSubFolder(resType) + strFileName;
 
-	fZipFile->AddFile(strFileName, file);	
-	
-	// Read From File
-	return kVCOMError_NoError;
+	return fZipFile->AddFile(strFileName, file);
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddBufferToGdtfFile(MvrString filename, const char* inBuffer, size_t length, GdtfDefines::ERessourceType resType)
@@ -174,10 +171,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddBufferToGdtfFile(
     buffer->SetData((void*)inBuffer, length);
     fBuffersAdded.push_back({strFileName, buffer});
 
-	fZipFile->AddFile(strFileName, buffer);	
-	
-	// Read From File
-	return kVCOMError_NoError;
+	return fZipFile->AddFile(strFileName, buffer);
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::Close()
@@ -185,15 +179,14 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::Close()
 	if(!fFixtureObject) { return kVCOMError_Failed; }
 	if(!fZipFile)		{ return kVCOMError_Failed; }
 		
-	fFixtureObject->ExportToFile(fZipFile);
+	const bool exported = fFixtureObject->ExportToFile(fZipFile);
 	
-	fZipFile->Close();
+	const VCOMError closed = fZipFile->Close();
 
     FreeBuffer();
     fZipFile->ToBuffer(fBuffer, fBufferLength);
 	
-	// Read From File
-	return kVCOMError_NoError;
+	return exported && VCOM_SUCCEEDED(closed) ? kVCOMError_NoError : kVCOMError_Failed;
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::ReadFromFile(IFileIdentifierPtr file, TXString gdtfFileName)
diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index 7fa782e..a29c2cd 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -982,8 +982,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::Close()
 	// Write Mode
 	if(fWriteMode)
 	{
-		fExchangeObj.WriteToFile(fPath);
-		return kVCOMError_NoError;
+		return fExchangeObj.WriteToFile(fPath) ? kVCOMError_NoError : kVCOMError_Failed;
 	}
 	
 	//------------------------------------------------------------------
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b231634..ce461d1 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -2887,6 +2887,11 @@ SceneDataExchange::~SceneDataExchange()
 		fFilesInZip[i]->DeleteOnDisk();
 	}
 
+	for (size_t i = 0; i < fBuffersToAdd.size(); i++)
+	{
+		delete fBuffersToAdd[i].second;
+	}
+
 	fSymDefObjs.clear();
 	fClassObjs.clear();
 	fPositions.clear();
@@ -3459,13 +3464,13 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 	//-------------------------------------------------------------------------------------------------
 	// Write the scene file
     IXMLFileIOBufferImpl sceneDataXmlBuffer;
-	WriteXml(fWorkingFolder, sceneDataXmlBuffer);
+	bool complete = WriteXml(fWorkingFolder, sceneDataXmlBuffer);
 	
 	
 	//-------------------------------------------------------------------------------------------------
 	// Create a ZIP File
 	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenNewWrite(file);
+	complete &= VCOM_SUCCEEDED(zipfile->OpenNewWrite(file));
 
 
 	//-------------------------------------------------------------------------------------------------
@@ -3486,72 +3491,70 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
     zipXmlBuffer.SetData(data, size);
 	
 	// Add the xml zipfile buffer
-    SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, filename);
+    complete &= SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, filename);
 	
 	//-------------------------------------------------------------------------------------------------	
     // Add the Resources
 
 	for (size_t i = 0; i < f3DS_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, f3DS_FilesToAdd.at(i),  ERessourceType::Model3DS, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, f3DS_FilesToAdd.at(i),  ERessourceType::Model3DS, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < f3DSLow_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, f3DSLow_FilesToAdd.at(i),  ERessourceType::Model3DSLow, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, f3DSLow_FilesToAdd.at(i),  ERessourceType::Model3DSLow, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < f3DSHigh_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, f3DSHigh_FilesToAdd.at(i),  ERessourceType::Model3DSHigh, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, f3DSHigh_FilesToAdd.at(i),  ERessourceType::Model3DSHigh, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fSVG_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fSVG_FilesToAdd.at(i), ERessourceType::ModelSVG, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fSVG_FilesToAdd.at(i), ERessourceType::ModelSVG, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fSVGSide_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fSVGSide_FilesToAdd.at(i), ERessourceType::ModelSVGSide, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fSVGSide_FilesToAdd.at(i), ERessourceType::ModelSVGSide, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fSVGFront_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fSVGFront_FilesToAdd.at(i), ERessourceType::ModelSVGFront, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fSVGFront_FilesToAdd.at(i), ERessourceType::ModelSVGFront, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fGLTF_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fGLTF_FilesToAdd.at(i),  ERessourceType::ModelGLTF, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fGLTF_FilesToAdd.at(i),  ERessourceType::ModelGLTF, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fGLTFLow_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fGLTFLow_FilesToAdd.at(i),  ERessourceType::ModelGLTFLow, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fGLTFLow_FilesToAdd.at(i),  ERessourceType::ModelGLTFLow, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fGLTFHigh_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fGLTFHigh_FilesToAdd.at(i),  ERessourceType::ModelGLTFHigh, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fGLTFHigh_FilesToAdd.at(i),  ERessourceType::ModelGLTFHigh, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fWheel_Image_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fWheel_Image_FilesToAdd.at(i), ERessourceType::ImageWheel, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fWheel_Image_FilesToAdd.at(i), ERessourceType::ImageWheel, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fFixtureResources_FilesToAdd.size(); i++)
 	{        
-		SceneDataZip::AddFileToZip(zipfile, fFixtureResources_FilesToAdd.at(i), ERessourceType::RessoureFixture, false/*Delete*/);
+		complete &= SceneDataZip::AddFileToZip(zipfile, fFixtureResources_FilesToAdd.at(i), ERessourceType::RessoureFixture, false/*Delete*/);
 	}
 
 	for (size_t i = 0; i < fBuffersToAdd.size(); i++)
 	{        
-    	SceneDataZip::AddFileToZip(zipfile, *fBuffersToAdd[i].second, fBuffersToAdd[i].first);
-		delete fBuffersToAdd[i].second;
+    	complete &= SceneDataZip::AddFileToZip(zipfile, *fBuffersToAdd[i].second, fBuffersToAdd[i].first);
 	}
-	fBuffersToAdd.clear();
 	
 	//-------------------------------------------------------------------------------------------------
 	// Add the needed
@@ -3565,7 +3568,15 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 			IFileIdentifierPtr gdtfFilePtr (IID_FileIdentifier);
 			gdtfFilePtr->Set(folder, gdtfFileName);
 			
+			// Look in the next folder when it is not in this one
+			bool			existsOnDisk	= false;
+			gdtfFilePtr->ExistsOnDisk(existsOnDisk);
+			if		(!existsOnDisk) { continue; }
+			
 			if		(SceneDataZip::AddFileToZip(zipfile, gdtfFilePtr, ERessourceType::RessoureFixture, false/*Delete*/, false/*ASSERT*/))	{ exported = true;  break; }
+			
+			// It is there, but could not be read
+			complete = false;
 		}
 	
 		
@@ -3577,10 +3588,10 @@ bool SceneDataExchange::WriteToFile(const IFileIdentifierPtr& file)
 
 	//-------------------------------------------------------------------------------------------------
 	// Store the file on disk
-	zipfile->Close();
+	complete &= VCOM_SUCCEEDED(zipfile->Close());
 	
 	
-	return true;
+	return complete;
 }
 
 void SceneDataExchange::AddProviderAndProviderVersion(const TXString& provider, const TXString& providerVersion)
@@ -3682,7 +3693,7 @@ bool SceneDataExchange::WriteXml(const IFolderIdentifierPtr& folder, IXMLFileIOB
 		// write file
 
 		
-        pXMLFile->WriteBuffer(&outBuffer, VectorworksMVR::Filing::EXMLEncoding::eXMLEncoding_UTF8);
+        if (VCOM_FAILED(pXMLFile->WriteBuffer(&outBuffer, VectorworksMVR::Filing::EXMLEncoding::eXMLEncoding_UTF8))) { return false; }
 		
 	}
 
diff --git a/src/Wrapper/RawOSFileimpl.cpp b/src/Wrapper/RawOSFileimpl.cpp
index 9f107fe..c869d46 100644
--- a/src/Wrapper/RawOSFileimpl.cpp
+++ b/src/Wrapper/RawOSFileimpl.cpp
@@ -4,6 +4,7 @@
 
 #ifdef _LINUX
 #include <unistd.h>
+#include <errno.h>
 #include <stdio.h>
 #endif
 
@@ -11,11 +12,13 @@ using namespace VectorworksMVR::Filing;
 
 CRawOSFileImpl::CRawOSFileImpl()
 	: fTheFile( nullptr )
+	, fWritable( false )
 {
 }
 
 CRawOSFileImpl::~CRawOSFileImpl()
 {
+	this->Close();
 }
 
 VCOMError CRawOSFileImpl::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID, bool bReadable, bool bWritable, bool bRandomAccess, bool bTruncateExisting)
@@ -26,6 +29,8 @@ VCOMError CRawOSFileImpl::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 	TXString	filePath;
 	pFileID->GetFileFullPath( filePath );
 
+	fWritable = bWritable;
+
 #ifdef _WINDOWS
 	 const wchar_t* path = filePath.GetWCharPtr();
  #else
@@ -47,17 +52,28 @@ VCOMError CRawOSFileImpl::Open(VectorworksMVR::Filing::IFileIdentifier* pFileID,
 
 VCOMError CRawOSFileImpl::Close()
 {
+	VCOMError result = kVCOMError_NoError;
+
 	if ( fTheFile )
 	{
+		if ( fWritable )
+		{
+			// what was written has to reach the disk, data the stream still holds included
+			if ( std::fflush( fTheFile ) != 0 )
+				result = kVCOMError_Failed;
 #ifdef _LINUX
-		fsync(fileno(fTheFile));
+			// a special file that can not be synchronized is not an error
+			if ( fsync(fileno(fTheFile)) != 0 && errno != EINVAL && errno != EROFS )
+				result = kVCOMError_Failed;
 #endif
-		std::fclose( fTheFile );
+		}
+		if ( std::fclose( fTheFile ) != 0 && fWritable )
+			result = kVCOMError_Failed;
 
 		fTheFile = NULL;
 	}
 
-	return kVCOMError_NoError;
+	return result;
 }
 
 VCOMError CRawOSFileImpl::GetFileSize(Uint64& outValue)
diff --git a/src/Wrapper/RawOSFileimpl.h b/src/Wrapper/RawOSFileimpl.h
index 8e8595a..0816872 100644
--- a/src/Wrapper/RawOSFileimpl.h
+++ b/src/Wrapper/RawOSFileimpl.h
@@ -22,6 +22,7 @@ namespace VectorworksMVR
 
 		private:
 			std::FILE*	fTheFile;
+			bool		fWritable;
 		};
 
 	}
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index d6faed7..7218e17 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -586,7 +586,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( fbCompressFiles && !compressedSize )
 				err = kVCOMError_Failed;
 
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
@@ -663,7 +663,7 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 				memcpy( (void*)outData, (void*)deflateBuffer, compressedSize );
 			}
 
-			if ( !compressedSize )
+			if ( fbCompressFiles && !compressedSize )
 				err = kVCOMError_Failed;
 		
 			zipFileInfo.bFolder = (uncompressedSize)?false:true;
@@ -717,7 +717,8 @@ VCOMError CZIPFileImpl::AddFile(const TXString& inPath, IZIPFileIOBuffer* inputB
 VCOMError CZIPFileImpl::AddFile(const TXString& path, IFileIdentifier* inputFile)
 {
 	CZIPFileIOBufferImpl inOutBuffer;
-	this->Read(&inOutBuffer, inputFile);
+	if ( !this->Read(&inOutBuffer, inputFile) )
+		return kVCOMError_Failed;
 	VCOMError err = this->AddFile( path, &inOutBuffer );		
 	return err;	
 }
@@ -968,10 +969,10 @@ bool CZIPFileImpl::Write( IZIPFileIOBuffer* inputBuffer, IFileIdentifier* pFileI
 			inputBuffer->GetDataSize( dataSize );
 			char* writeData = new char[dataSize];
 			inputBuffer->CopyDataInto( writeData, dataSize );
-			pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
-			pFile->Close();
+			const VCOMError written = pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
+			const VCOMError closed = pFile->Close();
 			
-			bOk = true;
+			bOk = VCOM_SUCCEEDED( written ) && VCOM_SUCCEEDED( closed );
 			
 			if ( writeData )
 				delete [] writeData;
@@ -1033,17 +1034,22 @@ bool CZIPFileImpl::Read( IZIPFileIOBuffer* outputBuffer, IFileIdentifier* pFileI
 		IRawOSFilePtr pFile( IID_RawOSFile );
 		if ( pFile && VCOM_SUCCEEDED( pFile->Open( pFileID, true, false, true, false ) ) )
 		{
-			Uint64 fileSize;
-			pFile->GetFileSize( fileSize );
-
-			char* readData = new char[(size_t)fileSize];
-			pFile->Read( 0, fileSize, readData );
-			outputBuffer->SetData( (void*)readData, (size_t)fileSize );
-			bOk = true;
-
-			if ( readData )
-				delete [] readData;
-		pFile->Close();
+			Uint64 fileSize = 0;
+			if ( VCOM_SUCCEEDED( pFile->GetFileSize( fileSize ) ) )
+			{
+				Uint64 readSize = fileSize;
+				char* readData = new char[(size_t)fileSize];
+				// only the complete file counts
+				if ( VCOM_SUCCEEDED( pFile->Read( 0, readSize, readData ) ) && readSize == fileSize )
+				{
+					outputBuffer->SetData( (void*)readData, (size_t)fileSize );
+					bOk = true;
+				}
+
+				if ( readData )
+					delete [] readData;
+			}
+			pFile->Close();
 		}
 	}
 	return bOk;
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 8faca3a..1d06ba7 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -2250,8 +2250,9 @@ bool SceneDataZip::AddFileToZip(IZIPFilePtr& zipFile, const IFileIdentifierPtr&
     nameFile = SceneData::SceneDataZip::GetResourceSubFolder(resType) + nameFile;
 
 	//-------------------------------------------------------------------------------------------------
-	// Write the  file
-	zipFile->AddFile(nameFile, file);
+	// Write the  file, one that is already in the archive under this name stays
+	const VCOMError added = zipFile->AddFile(nameFile, file);
+	if (VCOM_FAILED(added) && added != kVCOMError_InvalidArg) { return false; }
 	
 	//-------------------------------------------------------------------------------------------------
 	// HouseKeeping
@@ -2263,11 +2264,12 @@ bool SceneDataZip::AddFileToZip(IZIPFilePtr& zipFile, const IFileIdentifierPtr&
 	
 }
 
-void SceneDataZip::AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffer,const TXString &name)
+bool SceneDataZip::AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffer,const TXString &name)
 {
     //-------------------------------------------------------------------------------------------------
-    // Write the  file
-    zipFile->AddFile(name, &buffer);
+    // Write the  file, one that is already in the archive under this name stays
+    const VCOMError added = zipFile->AddFile(name, &buffer);
+    return VCOM_SUCCEEDED(added) || added == kVCOMError_InvalidArg;
 }
 
 TXString SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType resType)
@@ -2573,14 +2575,17 @@ VCOMError ISceneDataZipBuffer::WriteToFile(IFileIdentifierPtr file)
             this->GetDataSize( dataSize );
             char* writeData = new char[dataSize];
             this->CopyDataInto( writeData, dataSize );
-            pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
-            pFile->Close();
+            const VCOMError written = pFile->Write( 0, (Uint64)dataSize, (void*)writeData );
+            const VCOMError closed  = pFile->Close();
                         
             if ( writeData )
                 delete [] writeData;
+
+            if ( VCOM_SUCCEEDED( written ) && VCOM_SUCCEEDED( closed ) )
+                return kVCOMError_NoError;
         }
     }
-    return kVCOMError_NoError;
+    return kVCOMError_Failed;
 }
 
 VCOMError ISceneDataZipBuffer::GetData(void*& dataPointer)
diff --git a/src/XmlFileHelper.h b/src/XmlFileHelper.h
index 578300c..81b8ce2 100644
--- a/src/XmlFileHelper.h
+++ b/src/XmlFileHelper.h
@@ -190,7 +190,7 @@ namespace SceneData
 	{
 	public:
 		static bool AddFileToZip(IZIPFilePtr& zipFile, const IFileIdentifierPtr& file, ERessourceType resType, bool deleteFile, bool mustExist = true);
-        static void AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffer,const TXString &name);		
+        static bool AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffer,const TXString &name);		
 
         static TXString GetResourceSubFolder(ERessourceType resType);
 	};
-- 
2.43.0


From c36e9b61e9a50f4d1b0d2c03d19abc4b5b87029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:24 +0000
Subject: [PATCH 31/52] fix: refreshing or reading a GDTF buffer reports
 failures and leaves no freed buffer behind

---
 src/Implementation/CGdtfFixture.cpp | 41 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 7ddac51..96226b1 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -196,13 +196,15 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::ReadFromFile(IFileId
     if(VCOM_SUCCEEDED(rawFile->Open(file, true, false, false, false)))
     {
         Uint64 size = 0;
-        rawFile->GetFileSize(size);
         
-        if(size > 0)
+        if(VCOM_SUCCEEDED(rawFile->GetFileSize(size)) && size > 0)
         {
-            char* tempBuffer = new char[size + 1];
-            rawFile->Read(0, size, tempBuffer);
-            retVal = FromBufferInternal(tempBuffer, size, gdtfFileName);
+            char*  tempBuffer = new char[size + 1];
+            Uint64 readSize   = size;
+            if(VCOM_SUCCEEDED(rawFile->Read(0, readSize, tempBuffer)) && readSize == size)
+            {
+                retVal = FromBufferInternal(tempBuffer, size, gdtfFileName);
+            }
             delete[] tempBuffer;
         }
         rawFile->Close();
@@ -2427,6 +2429,7 @@ VCOMError VectorworksMVR::CGdtfFixtureImpl::GetBufferLength(size_t& length)
 VCOMError VectorworksMVR::CGdtfFixtureImpl::ToBuffer(char* outBuffer)
 {
     if (!fFixtureObject) { return kVCOMError_NotInitialized; }
+    if (!fBuffer)        { return kVCOMError_Failed; }
 
     memcpy( outBuffer,  fBuffer, fBufferLength );
     return kVCOMError_NoError;
@@ -2439,10 +2442,14 @@ VCOMError VectorworksMVR::CGdtfFixtureImpl::FromBuffer(const char* buffer, size_
 
 VCOMError VectorworksMVR::CGdtfFixtureImpl::FromBufferInternal(const char* buffer, size_t length, TXString gdtfFileName)
 {
+    if (!buffer || length == 0) { return kVCOMError_InvalidArg; }
+
+    char* newBuffer = new char[length + 1];
+    memcpy( newBuffer,  buffer, length );
+
     FreeBuffer();
+    fBuffer         = newBuffer;
     fBufferLength   = length;
-    fBuffer         = new char[fBufferLength + 1];
-    memcpy( fBuffer,  buffer, fBufferLength );
 
 
 	// Check there is already a object in here
@@ -2455,7 +2462,7 @@ VCOMError VectorworksMVR::CGdtfFixtureImpl::FromBufferInternal(const char* buffe
 	// Check if this was good
 	if (!fFixtureObject) { return kVCOMError_Failed; }
 
-    fFixtureObject->ImportFromBuffer(buffer,length, gdtfFileName);
+    fFixtureObject->ImportFromBuffer(fBuffer, fBufferLength, gdtfFileName);
 	
 	// Check if you can read it
 	if ( ! fFixtureObject->IsReaded()) { return kVCOMError_InvalidArg; }
@@ -2474,29 +2481,33 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::RefreshBuffer()
 	IFileIdentifierPtr file (IID_FileIdentifier);
 	file->Set(strFullPath);
 
-    fZipFile = IZIPFilePtr(IID_ZIPFile);
-	fZipFile->OpenNewWrite(file, false);
+    // The document may be open for write, the archive of that is not touched
+    IZIPFilePtr zipFile (IID_ZIPFile);
+	zipFile->OpenNewWrite(file, false);
+    if(!fZipFile) { fZipFile = zipFile; }
 
-    fFixtureObject->ExportToFile(fZipFile);
+    bool complete = fFixtureObject->ExportToFile(zipFile);
     
     for(const auto& e: fBuffersAdded)
     {
-        fZipFile->AddFile(e.first, e.second);
+        const VCOMError added = zipFile->AddFile(e.first, e.second);
+        complete &= VCOM_SUCCEEDED(added) || added == kVCOMError_InvalidArg; // one that is already in the archive under this name stays
     }
     
     
 	
-	fZipFile->Close();
+	complete &= VCOM_SUCCEEDED(zipFile->Close());
 
     FreeBuffer();
-    fZipFile->ToBuffer(fBuffer, fBufferLength);
+    zipFile->ToBuffer(fBuffer, fBufferLength);
 
-    return kVCOMError_NoError;
+    return complete ? kVCOMError_NoError : kVCOMError_Failed;
 }
 
 void VectorworksMVR::CGdtfFixtureImpl::FreeBuffer()
 {
     if(fBuffer) {delete[] fBuffer;}
+    fBuffer       = nullptr;
     fBufferLength = 0;
 }
 
-- 
2.43.0


From 00382f1eab1b071bad32eb01ff3907a60e89a13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:22 +0000
Subject: [PATCH 32/52] fix: deleting a file or folder reports what happened
 and a file deletion never removes a folder

---
 src/Wrapper/FileIdentifier.cpp |  9 ++-------
 src/Wrapper/FilingWrapper.cpp  | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Wrapper/FileIdentifier.cpp b/src/Wrapper/FileIdentifier.cpp
index 623f8ea..83ceafc 100644
--- a/src/Wrapper/FileIdentifier.cpp
+++ b/src/Wrapper/FileIdentifier.cpp
@@ -527,13 +527,8 @@ VCOMError CFileIdentifier::DeleteOnDisk()
 		return kVCOMError_Failed;
 
 	VCOMError			error	= kVCOMError_Failed;
-	if ( fileID.ExistsOnDisk() ) {
-		if ( fileID.DeleteOnDisk() ) {
-			error	= kVCOMError_NoError;
-		}
-	}
-	else {
-			error	= kVCOMError_NoError;
+	if ( fileID.DeleteOnDisk() || ! fileID.ExistsOnDisk() ) {
+		error	= kVCOMError_NoError;
 	}
 
 	return error;
diff --git a/src/Wrapper/FilingWrapper.cpp b/src/Wrapper/FilingWrapper.cpp
index e392ee1..c3d9e8f 100644
--- a/src/Wrapper/FilingWrapper.cpp
+++ b/src/Wrapper/FilingWrapper.cpp
@@ -129,12 +129,10 @@ bool TFolderIdentifier::DeleteOnDisk()
 		result = true;
 #elif _LINUX
 	const char * ptr = fcsPath.GetCharPtr();
-	remove(ptr);
-	result = true;
+	result = rmdir(ptr) == 0;
 #elif __APPLE__
 	const char * ptr = fcsPath.GetCharPtr();
-	rmdir(ptr);
-	result = true;
+	result = rmdir(ptr) == 0;
 #else
 	// TODO
 #endif
@@ -297,7 +295,12 @@ bool TFileIdentifier::ExistsOnDisk()
 bool TFileIdentifier::DeleteOnDisk()
 {
 	const char* path = fcsPath.GetCharPtr();
-	return remove(path) != 0;
+#ifdef _WINDOWS
+	return remove(path) == 0;
+#else
+	// remove() would also remove an empty folder
+	return unlink(path) == 0;
+#endif
 }
 
 bool TFileIdentifier::DuplicateOnDisk(const TFileIdentifier& fileToDuplicateTo, bool overwriteIfNecessary, bool duplicatePermissions) const
@@ -399,6 +402,7 @@ bool VectorworksMVR::Filing::GetFolderAppDataPath(TXString& outPath)
 #elif _LINUX
 	// LINUX_IMPLEMENTATION - done
 	struct passwd *pw = getpwuid(getuid());
+	if (!pw || !pw->pw_dir) { return false; }
 
 	const char *homedir = pw->pw_dir;
 	outPath = TXString(homedir);
@@ -406,6 +410,7 @@ bool VectorworksMVR::Filing::GetFolderAppDataPath(TXString& outPath)
 	//--------------------------------------------------------
 	//Implementation for OSX
 	struct passwd *pw = getpwuid(getuid());
+	if (!pw || !pw->pw_dir) { return false; }
 
 	const char *homedir = pw->pw_dir;
 	outPath = TXString(homedir);
-- 
2.43.0


From 53f0eb4720dd2fbdffd1b1dfc37f87e18bcc3edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:03 +0000
Subject: [PATCH 33/52] fix: every document extracts into a working folder of
 its own and removes it when it is released

---
 src/GDTFManager.cpp       | 24 ++---------
 src/SceneDataExchange.cpp | 25 +++---------
 src/XmlFileHelper.cpp     | 85 +++++++++++++++++++++++++++++++++++++++
 src/XmlFileHelper.h       | 10 +++++
 4 files changed, 104 insertions(+), 40 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 709f2bf..6409b15 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7840,28 +7840,14 @@ void GdtfFixture::PrepareWorkingFolder(TXString folderName)
 	// Working Directory
 	if(folderName.IsEmpty()){ folderName = "GdtfGroup"; }
 
-	fWorkingFolder = (IID_FolderIdentifier);
-
 	IFolderIdentifierPtr folder ( IID_FolderIdentifier );
 	folder->Set( EFolderSpecifier::kSpotlightFolder, true, "GDTFs" );
 	folder->CreateOnDisk();
 
-	fWorkingFolder->Set(folder, folderName );
-
-	
 	//---------------------------------------------------------------------------------------------
 	// Always start with a empty folder
-	bool exists = false;
-	fWorkingFolder->ExistsOnDisk(exists);
-	if (exists) { fWorkingFolder->DeleteOnDisk(); }
-	
-	// Create new Folder
-	fWorkingFolder->CreateOnDisk();
-	
-	//---------------------------------------------------------------------------------------------
-	// check if this was good
-	fWorkingFolder->ExistsOnDisk(exists);
-	ASSERTN(kEveryone, exists == true);
+	fWorkingFolder = SceneDataWorkingFolder::Acquire(folder, folderName);
+	ASSERTN(kEveryone, VCOM_SUCCEEDED(fWorkingFolder->IsSet()));
 }
 
 bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
@@ -9395,11 +9381,7 @@ GdtfFixture::~GdtfFixture()
 	for (GdtfRevisionPtr obj			: fRevisions)		{ delete obj; }
 
     // Delete Local Files
-	for (size_t i = 0; i < fLocalFiles.size(); i++)
-	{
-		IFileIdentifierPtr file = fLocalFiles[i];
-		file->DeleteOnDisk();
-	}
+	SceneDataWorkingFolder::Release(fWorkingFolder, fLocalFiles);
 
 	//Delete buffers
 	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index ce461d1..d931398 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -2857,23 +2857,13 @@ SceneDataExchange::SceneDataExchange()
 {	
 	//---------------------------------------------------------------------------------------------
 	// Set the working folder
-	fWorkingFolder = (IID_FolderIdentifier);
-	fWorkingFolder->Set(EFolderSpecifier::kSpotlightFolder, true /*UserFolder*/, "MVR_Export");
-	
-	
-	//---------------------------------------------------------------------------------------------
-	// Always start with a empty folder
-	bool exists = false;
-	fWorkingFolder->ExistsOnDisk(exists);
-	if (exists) { fWorkingFolder->DeleteOnDisk(); }
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	folder->Set(EFolderSpecifier::kSpotlightFolder, true /*UserFolder*/);
 
-	// Create new Folder
-	fWorkingFolder->CreateOnDisk();
-	
 	//---------------------------------------------------------------------------------------------
-	// check if this was good
-	fWorkingFolder->ExistsOnDisk(exists);
-	ASSERTN(kEveryone, exists = true);
+	// Always start with a empty folder
+	fWorkingFolder = SceneDataWorkingFolder::Acquire(folder, "MVR_Export");
+	ASSERTN(kEveryone, VCOM_SUCCEEDED(fWorkingFolder->IsSet()));
 
 	fDuplicatedUuids = false;
 }
@@ -2882,10 +2872,7 @@ SceneDataExchange::~SceneDataExchange()
 {
 	//-------------------------------------------------------------------------------------------------
 	// Housekeeping
-	for (size_t i = 0; i <  fFilesInZip.size() ; i++)
-	{
-		fFilesInZip[i]->DeleteOnDisk();
-	}
+	SceneDataWorkingFolder::Release(fWorkingFolder, fFilesInZip);
 
 	for (size_t i = 0; i < fBuffersToAdd.size(); i++)
 	{
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 1d06ba7..5d30ab6 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -4,6 +4,8 @@
 
 #include "Prefix/StdAfx.h"
 #include <cmath>
+#include <mutex>
+#include <set>
 using namespace VectorworksMVR::VWFC;
 
 #include "SceneDataExchange.h"
@@ -2272,6 +2274,89 @@ bool SceneDataZip::AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffe
     return VCOM_SUCCEEDED(added) || added == kVCOMError_InvalidArg;
 }
 
+// The working folders of the documents that are open in this process. These are never destroyed, because a document
+// may be released while the process ends.
+static std::mutex& WorkingFoldersMutex()
+{
+	static std::mutex* mutex = new std::mutex();
+	return *mutex;
+}
+
+static std::set<std::string>& WorkingFoldersInUse()
+{
+	static std::set<std::string>* folders = new std::set<std::string>();
+	return *folders;
+}
+
+/*static*/ IFolderIdentifierPtr SceneDataWorkingFolder::Acquire(const IFolderIdentifierPtr& parent, const TXString& name)
+{
+	IFolderIdentifierPtr folder (IID_FolderIdentifier);
+	
+	// A folder can only be created in another one that exists
+	TXString parentPath;
+	if (VCOM_FAILED(parent->GetFullPath(parentPath))) { return folder; }
+	
+	std::lock_guard<std::mutex> lock(WorkingFoldersMutex());
+	
+	for (size_t number = 0; ; number++)
+	{
+		TXString folderName = name;
+		if (number > 0) { folderName << "_" << number; }
+		
+		TXString path;
+		folder->Set(parent, folderName);
+		folder->GetFullPath(path);
+		
+		// A name like ".." is not a name in the parent folder
+		if (path.GetLength() <= parentPath.GetLength()) { continue; }
+		
+		if (WorkingFoldersInUse().count(path.GetStdString())) { continue; }
+		
+		// The new folder has to be empty. One that already exists is only taken over when it can be deleted, that is when it is empty.
+		if (VCOM_FAILED(folder->CreateOnDisk()))
+		{
+			bool exists = false;
+			folder->ExistsOnDisk(exists);
+			if (exists && VCOM_FAILED(folder->DeleteOnDisk())) { continue; }
+			if (VCOM_FAILED(folder->CreateOnDisk()))
+			{
+				folder->Clear();
+				return folder;
+			}
+		}
+		
+		WorkingFoldersInUse().insert(path.GetStdString());
+		return folder;
+	}
+}
+
+/*static*/ void SceneDataWorkingFolder::Release(const IFolderIdentifierPtr& folder, const std::vector<IFileIdentifierPtr>& files)
+{
+	TXString path;
+	if ( ! folder || VCOM_FAILED(folder->GetFullPath(path))) { return; }
+	
+	for (IFileIdentifierPtr file : files) { file->DeleteOnDisk(); }
+	
+	// Delete the folders of the files that are empty now, a folder with something else in it is not deleted
+	for (IFileIdentifierPtr file : files)
+	{
+		IFolderIdentifierPtr	subFolder;
+		TXString				subPath;
+		file->GetFolder(& subFolder);
+		while (subFolder && VCOM_SUCCEEDED(subFolder->GetFullPath(subPath)) && subPath.GetLength() > path.GetLength())
+		{
+			if (VCOM_FAILED(subFolder->DeleteOnDisk())) { break; }
+			IFolderIdentifierPtr parentFolder;
+			subFolder->GetParentFolder(& parentFolder);
+			subFolder = parentFolder;
+		}
+	}
+	
+	std::lock_guard<std::mutex> lock(WorkingFoldersMutex());
+	folder->DeleteOnDisk();
+	WorkingFoldersInUse().erase(path.GetStdString());
+}
+
 TXString SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType resType)
 {    
     switch (resType) 
diff --git a/src/XmlFileHelper.h b/src/XmlFileHelper.h
index 81b8ce2..4f41b8f 100644
--- a/src/XmlFileHelper.h
+++ b/src/XmlFileHelper.h
@@ -194,4 +194,14 @@ namespace SceneData
 
         static TXString GetResourceSubFolder(ERessourceType resType);
 	};
+
+	// The folder a document extracts its files into. It belongs to one document only.
+	class SceneDataWorkingFolder
+	{
+	public:
+		// Creates an empty folder with this name in the parent folder, or one with a number appended when the name is in use
+		static IFolderIdentifierPtr	Acquire(const IFolderIdentifierPtr& parent, const TXString& name);
+		// Deletes the extracted files and the folders they are in
+		static void					Release(const IFolderIdentifierPtr& folder, const std::vector<IFileIdentifierPtr>& files);
+	};
 }
-- 
2.43.0


From c385c2af85ce468b34fd41a46d6912b66d01a3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 34/52] fix: importing a GDTF archive reports unreadable files,
 stays in its folder and keeps every resource under its own name

---
 src/GDTFManager.cpp         | 173 ++++++++++++++++--------------------
 src/Wrapper/ZIPFileImpl.cpp |   2 +-
 src/XmlFileHelper.cpp       |  38 ++++++++
 src/XmlFileHelper.h         |   5 ++
 4 files changed, 122 insertions(+), 96 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 6409b15..dbe902d 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1631,50 +1631,32 @@ void GdtfModel::OnReadFromNode(const IXMLFileNodePtr& pNode)
 
 	if(!fGeometryFile.IsEmpty())
 	{
-		TXString filename3DS = fGeometryFile + ".3ds";
-		TXString filenameSVG = fGeometryFile + ".svg";
-		TXString filenameGLTF = fGeometryFile + ".glb";
-
-		std::map<TXString, std::pair<char*, size_t> > fileBuffers = fParentFixture->GetFileBuffers();
-
-		auto buffer = fileBuffers.find(filename3DS);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSize3DS	= buffer->second.second;
-			fBuffer3DS		= new char[fBufferSize3DS];
-			memcpy(fBuffer3DS, buffer->second.first, fBufferSize3DS);
-		}
-		else if(fBufferSize3DS > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBuffer3DS, fBufferSize3DS);
-			fileBuffers[filename3DS] = bufferPair;
-		}
-
-		buffer = fileBuffers.find(filenameSVG);
-		if(buffer != fileBuffers.end())
-		{
-			fBufferSizeSVG	= buffer->second.second;
-			fBufferSVG		= new char[fBufferSizeSVG];
-			memcpy(fBufferSVG, buffer->second.first, fBufferSizeSVG);
-		}
-		else if(fBufferSizeSVG > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferSVG, fBufferSizeSVG);
-			fileBuffers[filenameSVG] = bufferPair;
-		}
-
-		buffer = fileBuffers.find(filenameGLTF);
-		if(buffer != fileBuffers.end())
+		// The model is in the folder for its type, or else anywhere in the file
+		auto readBuffer = [this] (ERessourceType type, const TXString& extension, char*& outBuffer, size_t& outSize)
 		{
-			fBufferSizeGLTF	= buffer->second.second;
-			fBufferGLTF		= new char[fBufferSizeGLTF];
-			memcpy(fBufferGLTF, buffer->second.first, fBufferSizeGLTF);
-		}
-		else if(fBufferSizeGLTF > 0)
-		{
-			std::pair<char*, size_t> bufferPair = std::make_pair(fBufferGLTF, fBufferSizeGLTF);
-			fileBuffers[filenameGLTF] = bufferPair;
-		}	
+			const std::map<TXString, std::pair<char*, size_t> >& fileBuffers = fParentFixture->GetFileBuffers();
+			const TXString name = fGeometryFile + extension;
+			const TXString path = SceneDataZip::GetResourceSubFolder(type).Replace("\\", "/") + name;
+			
+			auto buffer = fileBuffers.find(path);
+			if(buffer == fileBuffers.end()) { buffer = fileBuffers.find(name); }
+			for(auto it = fileBuffers.begin(); buffer == fileBuffers.end() && it != fileBuffers.end(); it++)
+			{
+				if(it->first.EndsWith("/" + name)) { buffer = it; }
+			}
+			
+			if(buffer != fileBuffers.end())
+			{
+				if(outBuffer) { delete[] outBuffer; }
+				outSize		= buffer->second.second;
+				outBuffer	= new char[outSize];
+				memcpy(outBuffer, buffer->second.first, outSize);
+			}
+		};
+		
+		readBuffer(ERessourceType::Model3DS,	".3ds", fBuffer3DS,		fBufferSize3DS);
+		readBuffer(ERessourceType::ModelSVG,	".svg", fBufferSVG,		fBufferSizeSVG);
+		readBuffer(ERessourceType::ModelGLTF,	".glb", fBufferGLTF,	fBufferSizeGLTF);
 	}
 }
 
@@ -1989,7 +1971,7 @@ EGdtfModel_PrimitiveType GdtfModel::GetPrimitiveType() const
 
 void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 {
-	if(fBuffer3DS)
+	if(!fBuffer3DS)
 	{
 		return;
 	}
@@ -2005,7 +1987,7 @@ void GdtfModel::GetBuffer3DS(void** bufferToCopy, size_t& length)
 
 void GdtfModel::GetBufferSVG(void** bufferToCopy, size_t& length)
 {
-	if(fBufferSVG)
+	if(!fBufferSVG)
 	{
 		return;
 	}
@@ -7819,7 +7801,7 @@ void GdtfFixture::ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& f
 	PrepareWorkingFolder(folder);
 	
 	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(inZipFile);
+	if (VCOM_FAILED(zipfile->OpenRead(inZipFile))) { return; }
 
 	ImportFromZip(zipfile);
 }
@@ -7861,11 +7843,23 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 	// Decompress the files
 	std::string fileName				= "";
 	std::string inPath					= "";
-	while (VCOM_SUCCEEDED( zipfile->GetNextFile(inPath, fileName)))
+	VCOMError	next					= kVCOMError_NoError;
+	bool		complete				= true;
+	while ((next = zipfile->GetNextFile(inPath, fileName)) == kVCOMError_NoError)
 	{
 		// This is the current file that we are reading
 		ISceneDataZipBuffer buffer;
-		if(VCOM_SUCCEEDED(zipfile->GetFile(fileName, &buffer)))
+		VCOMError			result = SceneDataZip::IsFolderEntry(fileName) ? kVCOMError_False : zipfile->GetFile(fileName, &buffer);
+		
+		// A file with an encoding that is not supported is in the list of errors, all other files need to be complete
+		if (VCOM_FAILED(result) && result != kVCOMError_False && result != kVCOMError_NotImplemented)
+		{
+			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureChecksumError);
+			SceneData::GdtfFixture::AddError(error);
+			complete = false;
+		}
+		
+		if(result == kVCOMError_NoError)
 		{
 			if (fileName == "description.xml")
 			{
@@ -7884,37 +7878,37 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				//-----------------------------------------------------------------------------
 				// Prepare pointer to the new files            
 				
+				// The name in the archive
+				TXString entryName			   = TXString(fileName).Replace("\\", "/"); // It seems some zips come also with this.
+
 				// Separate filename und folder
-				TXString fileNameWithoutFolder = TXString(fileName).Replace("/", TXString(kSeperator) );	
-	#ifndef _WINDOWS
-				fileNameWithoutFolder          = TXString(fileName).Replace("\\", TXString(kSeperator) ); // It seems some zips come also with this.
-	#endif
+				TXString fileNameWithoutFolder = TXString(entryName).Replace("/", TXString(kSeperator) );
 				TXString subFolder 			   = SystemUtil::ExtractFolderFromPath(fileNameWithoutFolder);        
 				
 				// flatten the folder structure
 				subFolder = subFolder.Replace(TXString(kSeperator), "");
 				subFolder = TXString(kSeperator) + subFolder;
 
-				// write the data into the filebuffer map.
-				size_t	size = 0;							buffer.GetDataSize(size);
-				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
-				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
-				fFileBuffers[fileNameWithoutFolder] = bufferPair;
-
 				//-----------------------------------------------------------------------------
 				IFolderIdentifierPtr targetFolder (IID_FolderIdentifier);
 				targetFolder->Set(fWorkingFolder, subFolder);
 				
-				bool exists = false;
-				targetFolder->ExistsOnDisk(exists);
-				if( ! exists )	{ targetFolder->CreateOnDisk(); }
-				
-				
 				IFileIdentifierPtr file (IID_FileIdentifier);
 				file->Set(targetFolder, fileNameWithoutFolder);
 				
+				// An entry that would be written somewhere else, or that is there already under this name is not used
+				inPath = fileName;
+				if (fFileBuffers.find(entryName) != fFileBuffers.end())				{ continue; }
+				if ( ! SceneDataWorkingFolder::PrepareFile(fWorkingFolder, file))	{ continue; }
+
+				// write the data into the filebuffer map.
+				size_t	size = 0;							buffer.GetDataSize(size);
+				void*	data = malloc(size * sizeof(char));	buffer.CopyDataInto(data, size); //data is deleted in the GdtfFixture destructor.
+				std::pair<char*, size_t> bufferPair = std::make_pair((char*)data, size);
+				fFileBuffers[entryName] = bufferPair;
+
 				// dump buffer into file
-				buffer.WriteToFile(file);
+				if (VCOM_FAILED(buffer.WriteToFile(file))) { complete = false; }
 				
 				// Add it into the file list
 				fLocalFiles.push_back(file);
@@ -7932,14 +7926,16 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 	
 	zipfile->Close();
 	
+	// All entries have to be there
+	complete = complete && next == kVCOMError_False;
+	
 	//-------------------------------------------------------------------------------------------------
 	// Decompress the files
-	fReaded = xmlFileBuffer.IsSet();
-	if ( ! fReaded)
+	fReaded = false;
+	if ( ! xmlFileBuffer.IsSet())
 	{
 		GdtfParsingError error (GdtfDefines::EGdtfParsingError::eFixtureNoGdtfFileInXmlBuffer);
 		SceneData::GdtfFixture::AddError(error);
-		fReaded = false;
 	}
 	else
 	{
@@ -7988,15 +7984,22 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 					// Read Stuff
 					this->GetFileNodesCount( fixtureNode );
 					this->ReadFromNode(fixtureNode);
-					this->ResolveAllReferences();		
+					this->ResolveAllReferences();
+					
+					fReaded = complete;
 				}
 			}
 		}
+		else
+		{
+			// What is wrong with the description is in the list of errors
+			fReaded = complete && ! fErrorContainer.empty();
+		}
 	}
 
 	__ERROR_CONTAINER_POINTER = nullptr;
 
-	return true;
+	return fReaded;
 }
 
 void GdtfFixture::GetFileNodesCount(const IXMLFileNodePtr& rootNode)
@@ -9883,36 +9886,16 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 	complete &= SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
 
 	//------------------------------------------------------------------------------------
-	// Add meshes
+	// Add the files that were read, under the name they had
 
 	for (auto it = fFileBuffers.begin(); it != fFileBuffers.end(); it++)
 	{
-		TXString strFileName;
-
-		if(it->first.EndsWith("3ds"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::Model3DS) + it->first;
-		}
+		CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
+		bufferzip->SetData((void*)it->second.first, it->second.second);
+		const VCOMError added = zipfile->AddFile(it->first, bufferzip);
+		complete &= VCOM_SUCCEEDED(added) || added == kVCOMError_InvalidArg; // one that is already in the archive under this name stays
 
-		if(it->first.EndsWith("svg"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelSVG) + it->first;
-		}
-
-		if(it->first.EndsWith("glb"))
-		{
-			strFileName = SceneData::SceneDataZip::GetResourceSubFolder(ERessourceType::ModelGLTF) + it->first;
-		}
-
-		if(!strFileName.IsEmpty())
-		{
-			CZIPFileIOBufferImpl* bufferzip = new CZIPFileIOBufferImpl();
-			bufferzip->SetData((void*)it->second.first, it->second.second);
-			const VCOMError added = zipfile->AddFile(strFileName, bufferzip);
-			complete &= VCOM_SUCCEEDED(added) || added == kVCOMError_InvalidArg; // one that is already in the archive under this name stays
-
-			delete bufferzip;
-		}
+		delete bufferzip;
 	}
 	
 	return complete;
diff --git a/src/Wrapper/ZIPFileImpl.cpp b/src/Wrapper/ZIPFileImpl.cpp
index 7218e17..259c4fc 100644
--- a/src/Wrapper/ZIPFileImpl.cpp
+++ b/src/Wrapper/ZIPFileImpl.cpp
@@ -471,7 +471,7 @@ VCOMError CZIPFileImpl::GetFile(const std::string& path, IZIPFileIOBuffer* outpu
 	if ( fileInfo.dwCompressionMethod == 12  /* bzip2 */)
 	{
 		SceneData::GdtfFixture::AddError(GdtfParsingError(GdtfDefines::EGdtfParsingError::eFileWithUnsupportedEncodingInZip)); 
-		err = kVCOMError_Failed;
+		err = kVCOMError_NotImplemented;
 	}
 	else if(fileInfo.dwCompressionMethod == 0 /* No compression */)
 	{
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index 5d30ab6..cec04a0 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -2330,6 +2330,44 @@ static std::set<std::string>& WorkingFoldersInUse()
 	}
 }
 
+/*static*/ bool SceneDataWorkingFolder::PrepareFile(const IFolderIdentifierPtr& folder, const IFileIdentifierPtr& file)
+{
+	TXString				path;
+	TXString				filePath;
+	IFolderIdentifierPtr	fileFolder;
+	if (VCOM_FAILED(folder->GetFullPath(path)))			{ return false; }
+	if (VCOM_FAILED(file->GetFileFullPath(filePath)))	{ return false; }
+	if (VCOM_FAILED(file->GetFolder(& fileFolder)))		{ return false; }
+	
+	// The name of an entry may lead out of the folder
+	TXString fileName;
+	file->GetFileName(fileName);
+	if (fileName == "." || fileName == "..")				{ return false; }
+	if (filePath.Left(path.GetLength()) != path)			{ return false; }
+	
+	// Create the folders from the working folder on
+	std::vector<IFolderIdentifierPtr> missing;
+	bool exists = false;
+	while (VCOM_SUCCEEDED(fileFolder->ExistsOnDisk(exists)) && ! exists)
+	{
+		missing.push_back(fileFolder);
+		IFolderIdentifierPtr parent;
+		if (VCOM_FAILED(fileFolder->GetParentFolder(& parent))) { break; }
+		fileFolder = parent;
+	}
+	while ( ! missing.empty())
+	{
+		if (VCOM_FAILED(missing.back()->CreateOnDisk())) { break; }
+		missing.pop_back();
+	}
+	return true;
+}
+
+/*static*/ bool SceneDataZip::IsFolderEntry(const std::string& name)
+{
+	return ! name.empty() && (name.back() == '/' || name.back() == '\\');
+}
+
 /*static*/ void SceneDataWorkingFolder::Release(const IFolderIdentifierPtr& folder, const std::vector<IFileIdentifierPtr>& files)
 {
 	TXString path;
diff --git a/src/XmlFileHelper.h b/src/XmlFileHelper.h
index 4f41b8f..1dd0e9c 100644
--- a/src/XmlFileHelper.h
+++ b/src/XmlFileHelper.h
@@ -193,6 +193,9 @@ namespace SceneData
         static bool AddFileToZip(IZIPFilePtr& zipFile, ISceneDataZipBuffer& buffer,const TXString &name);		
 
         static TXString GetResourceSubFolder(ERessourceType resType);
+
+		// True for the entry of a folder, that has no content
+		static bool IsFolderEntry(const std::string& name);
 	};
 
 	// The folder a document extracts its files into. It belongs to one document only.
@@ -201,6 +204,8 @@ namespace SceneData
 	public:
 		// Creates an empty folder with this name in the parent folder, or one with a number appended when the name is in use
 		static IFolderIdentifierPtr	Acquire(const IFolderIdentifierPtr& parent, const TXString& name);
+		// Creates the folder for a file that will be extracted, fails if the file would not be in the working folder
+		static bool					PrepareFile(const IFolderIdentifierPtr& folder, const IFileIdentifierPtr& file);
 		// Deletes the extracted files and the folders they are in
 		static void					Release(const IFolderIdentifierPtr& folder, const std::vector<IFileIdentifierPtr>& files);
 	};
-- 
2.43.0


From 4698510b9cd76a2755832f84592fb4b17a1c4fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:56 +0000
Subject: [PATCH 35/52] fix: the buffers set for a model are stored in the GDTF
 file

---
 src/GDTFManager.cpp | 29 +++++++++++++++++++++++++++++
 src/GDTFManager.h   |  5 +++++
 2 files changed, 34 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index dbe902d..33443f9 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -1524,6 +1524,7 @@ void GdtfModel::SetBuffer3DS(void* bufferToCopy, size_t length)
 	fBuffer3DS		= new char[length];
 	fBufferSize3DS	= length;
 	memcpy(fBuffer3DS, bufferToCopy, length);
+	fBuffer3DSSet = true;
 }
 
 void GdtfModel::SetBufferSVG(void* bufferToCopy, size_t length)
@@ -1537,6 +1538,7 @@ void GdtfModel::SetBufferSVG(void* bufferToCopy, size_t length)
 	fBufferSVG 		= new char[length];
 	fBufferSizeSVG 	= length;
 	memcpy(fBufferSVG, bufferToCopy, length);
+	fBufferSVGSet = true;
 }
 
 void GdtfModel::SetBufferGLTF(void* bufferToCopy, size_t length)
@@ -1550,6 +1552,26 @@ void GdtfModel::SetBufferGLTF(void* bufferToCopy, size_t length)
 	fBufferGLTF			= new char[length];
 	fBufferSizeGLTF 	= length;
 	memcpy(fBufferGLTF, bufferToCopy, length);
+	fBufferGLTFSet = true;
+}
+
+bool GdtfModel::ExportBuffers(IZIPFilePtr& zipfile)
+{
+	bool complete = true;
+	auto exportBuffer = [&] (ERessourceType type, const TXString& extension, bool set, void* data, size_t size)
+	{
+		if(!set || fGeometryFile.IsEmpty()) { return; }
+		
+		ISceneDataZipBuffer buffer;
+		buffer.SetData(data, size);
+		complete &= SceneDataZip::AddFileToZip(zipfile, buffer, SceneDataZip::GetResourceSubFolder(type) + fGeometryFile + extension);
+	};
+	
+	exportBuffer(ERessourceType::Model3DS,	".3ds", fBuffer3DSSet,	fBuffer3DS,		fBufferSize3DS);
+	exportBuffer(ERessourceType::ModelSVG,	".svg", fBufferSVGSet,	fBufferSVG,		fBufferSizeSVG);
+	exportBuffer(ERessourceType::ModelGLTF,	".glb", fBufferGLTFSet,	fBufferGLTF,	fBufferSizeGLTF);
+	
+	return complete;
 }
 
 void GdtfModel::SetSVGOffsetX(double svgOffsetX)
@@ -9885,6 +9907,13 @@ bool GdtfFixture::ExportToFile(IZIPFilePtr& zipfile)
 	// Add to ZIP
 	complete &= SceneDataZip::AddFileToZip(zipfile, zipXmlBuffer, TXString(XML_GDTF_GDTFFILENAME) );
 
+	//------------------------------------------------------------------------------------
+	// Add the buffers of the models
+	for (GdtfModel* model : fModels)
+	{
+		complete &= model->ExportBuffers(zipfile);
+	}
+
 	//------------------------------------------------------------------------------------
 	// Add the files that were read, under the name they had
 
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index c060b09..a0df347 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -688,6 +688,9 @@ namespace SceneData
         TXString								fFullPathSVG;
 		TXString								fFullPathGLTF;
 
+		bool									fBuffer3DSSet  = false; // set by the user, not read from a file
+		bool									fBufferSVGSet  = false;
+		bool									fBufferGLTFSet = false;
 		char*									fBuffer3DS;
 		char*									fBufferSVG;
 		char*									fBufferGLTF;
@@ -747,6 +750,8 @@ namespace SceneData
 		void									SetBufferSVG(void* bufferToCopy, size_t length);
 		void									SetBufferGLTF(void* bufferToCopy, size_t length);
 
+		bool									ExportBuffers(IZIPFilePtr& zipfile);
+
 		void									SetSVGOffsetX(double svgOffsetX);
 		void									SetSVGOffsetY(double svgOffsetY);
 		void									SetSVGSideOffsetX(double svgSideOffsetX);
-- 
2.43.0


From b80117f7bb700c4077be1846bfa707d339b333fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 36/52] fix: importing an MVR archive reports unreadable files,
 stays in its folder and survives missing symbol definitions

---
 src/SceneDataExchange.cpp | 58 ++++++++++++++++++++++++++-------------
 src/SceneDataExchange.h   |  3 +-
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index d931398..7fa7de5 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3723,21 +3723,28 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 	//-------------------------------------------------------------------------------------------------
 	// Create a ZIP File
 	IZIPFilePtr zipfile ( IID_ZIPFile );
-	zipfile->OpenRead(file);
+	if (VCOM_FAILED(zipfile->OpenRead(file))) { return false; }
 	
 	// Prepare
     ISceneDataZipBuffer xmlFileBuffer;
+	VCOMError next		= kVCOMError_NoError;
+	bool complete		= true;
 	
 	//-------------------------------------------------------------------------------------------------
 	// Decompress the files
 	std::string outPath	= "";
 	std::string inPath	= "";
-	while (VCOM_SUCCEEDED( zipfile->GetNextFile(inPath, outPath)))
+	while ((next = zipfile->GetNextFile(inPath, outPath)) == kVCOMError_NoError)
 	{
+		inPath = outPath;
+
+		// The entry of a folder has no content
+		if (SceneDataZip::IsFolderEntry(outPath)) { continue; }
+
 		// This is the current file that we are reading
         ISceneDataZipBuffer buffer;
 		
-		zipfile->GetFile(outPath, &buffer);
+		if (VCOM_FAILED(zipfile->GetFile(outPath, &buffer))) { complete = false; continue; }
 		
         if (outPath == "GeneralSceneDescription.xml")
         {
@@ -3757,14 +3764,16 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 			IFileIdentifierPtr file (IID_FileIdentifier);
 			file->Set(fWorkingFolder, outPath);
 			
+			// An entry that would be written somewhere else is not used
+			if ( ! SceneDataWorkingFolder::PrepareFile(fWorkingFolder, file)) { continue; }
+			
 			// dump buffer into file
-            buffer.WriteToFile(file);
+            if (VCOM_FAILED(buffer.WriteToFile(file))) { complete = false; }
 			
 			// Add it into the file list
             fFilesInZip.push_back(file);
 		
         }
-        inPath = outPath;
 	}
 	
 	//-------------------------------------------------------------------------------------------------
@@ -3772,23 +3781,26 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 	zipfile->Close();
 	
 	
+	// All entries have to be there
+	complete = complete && next == kVCOMError_False;
+	
 	//-------------------------------------------------------------------------------------------------
 	// Prepare bools for checksum checks
 
 	ASSERTN(kEveryone, xmlFileBuffer.IsSet());
-    if (xmlFileBuffer.IsSet())
-    {
-		// Read from Scene Description
-		ReadFromGeneralSceneDescription(xmlFileBuffer);
-    }
+    if ( ! xmlFileBuffer.IsSet()) { return false; }
 
-	return true;	
+	// Read from Scene Description
+	return ReadFromGeneralSceneDescription(xmlFileBuffer) && complete;
 }
 
 
 
-void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile)
+bool SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile)
 {
+	bool readed = false;
+	fAbortReading = false;
+
 	// Prepare pointer to XML file
 	IXMLFilePtr file ( IID_XMLFile );
 	
@@ -3818,6 +3830,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			rootNode->GetNodeAttributeValue( XML_Val_RootAttrMinorVersion, outMinorValue );
 			fMVRFileMajorVersion = outMajorValue.atoi();
 			fMVRFileMinorVersion = outMinorValue.atoi();
+			readed = true;
 			
 			// ----------------------------------------------------------------
 			// Find the user data Node
@@ -3848,20 +3861,20 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			IXMLFileNodePtr sceneNode = nullptr;
 			if (VCOM_SUCCEEDED(rootNode->FindChildNode(XML_Val_SceneNodeName, & sceneNode)))
 			{
-				if ( CheckAbort() ) return;
+				if ( CheckAbort() ) return false;
 				// ----------------------------------------------------------------
 				// Find the Scene Node
 				IXMLFileNodePtr auxDataNode = nullptr;
 				if (VCOM_SUCCEEDED(sceneNode->FindChildNode(XML_Val_AuxDataNodeName, & auxDataNode)))
 				{
-					if ( CheckAbort() ) return;
+					if ( CheckAbort() ) return false;
 					IXMLFileNodePtr auxDataObj = nullptr;
 					if (VCOM_SUCCEEDED(auxDataNode->GetFirstChildNode( & auxDataObj)))
 					{
 						
 						while (auxDataObj)
 						{
-							if ( CheckAbort() ) return;
+							if ( CheckAbort() ) return false;
 							// ---------------------------------------------------------------------------
 							// Check the Node Name
 							TXString nodeName;
@@ -3888,14 +3901,14 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 				IXMLFileNodePtr layersNode = nullptr;
 				if (VCOM_SUCCEEDED(sceneNode->FindChildNode(XML_Val_LayersNodeName, & layersNode)))
 				{
-					if ( CheckAbort() ) return;
+					if ( CheckAbort() ) return false;
 					IXMLFileNodePtr layerObjNode = nullptr;
 					if (VCOM_SUCCEEDED(layersNode->GetFirstChildNode( & layerObjNode)))
 					{
 						
 						while (layerObjNode)
 						{
-							if ( CheckAbort() ) return;
+							if ( CheckAbort() ) return false;
 							// ---------------------------------------------------------------------------
 							// Check the Node Name
 							TXString nodeName;
@@ -3998,7 +4011,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
                 if (geoObj->IsSymDef())
                 {
 				    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				    SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
+				    SceneDataSymDefObjPtr ptr    = FindSymDef(symObj->GetUnresolvedSymDef());
 				
 				    ASSERTN(kEveryone, ptr);
 				    if(ptr) { symObj->SetSymDef(ptr); }
@@ -4013,7 +4026,7 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			if(geoObj->IsSymDef())
 			{
 				SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				SceneDataSymDefObjPtr ptr    = fSymDefMap[symObj->GetUnresolvedSymDef()];
+				SceneDataSymDefObjPtr ptr    = FindSymDef(symObj->GetUnresolvedSymDef());
 				
 				ASSERTN(kEveryone, ptr);
 				if(ptr) { symObj->SetSymDef(ptr); }
@@ -4022,6 +4035,13 @@ void SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 		
 	}
 	
+	return readed && ! fAbortReading;
+}
+
+SceneDataSymDefObjPtr SceneDataExchange::FindSymDef(const TXString& uuid)
+{
+	TSymDefMap::iterator it = fSymDefMap.find(uuid);
+	return it != fSymDefMap.end() ? it->second : nullptr;
 }
 
 void SceneDataExchange::ProcessLayer(const IXMLFileNodePtr& node)
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index afbacc2..56f2b91 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -1119,11 +1119,12 @@ namespace SceneData
 		size_t								GetMVRFileMinorVersion() const;
 
 	private:
-		void								ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile);
+		bool								ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xmlFile);
 		void								ProcessLayer(const IXMLFileNodePtr& node);
 		void								ReadChildObjs(const IXMLFileNodePtr & node, SceneDataGroupObjPtr addToContainer);
 		SceneDataGroupObjPtr				ProcessGroup(const IXMLFileNodePtr& node, SceneDataGroupObjPtr addToContainer);
 		bool								CheckAbort();
+		SceneDataSymDefObjPtr				FindSymDef(const TXString& uuid);
 		
 		
 		
-- 
2.43.0


From eafc4c1b995f5545a9e47c4fcd9b93f97ded5452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:24 +0000
Subject: [PATCH 37/52] fix: aborting an import fails it, asks its own
 document's callback and does not disturb other documents

---
 src/FeedbackDispatcher.cpp          | 14 +++++-
 src/FeedbackDispatcher.h            |  1 +
 src/GDTFManager.cpp                 | 70 +++++++++++++++++++----------
 src/GDTFManager.h                   | 28 +++++++++---
 src/Implementation/CGdtfFixture.cpp |  3 +-
 src/Implementation/CGdtfFixture.h   |  2 +
 src/SceneDataExchange.cpp           | 21 ++++-----
 src/SceneDataExchange.h             |  4 +-
 8 files changed, 97 insertions(+), 46 deletions(-)

diff --git a/src/FeedbackDispatcher.cpp b/src/FeedbackDispatcher.cpp
index bc87c7b..02040a9 100644
--- a/src/FeedbackDispatcher.cpp
+++ b/src/FeedbackDispatcher.cpp
@@ -12,6 +12,12 @@ std::function<void(const FixtureFeedback&)>& FeedbackDispatcher::GetCallbackRef(
 	return callback;
 }
 
+std::mutex& FeedbackDispatcher::GetMutex()
+{
+	static std::mutex mutex;
+	return mutex;
+}
+
 void*& FeedbackDispatcher::GetContextRef()
 {
 	static void* context = nullptr;
@@ -20,13 +26,17 @@ void*& FeedbackDispatcher::GetContextRef()
 
 void FeedbackDispatcher::SetCallback( std::function<void(const FixtureFeedback&)> cb, void* context )
 {
+	std::lock_guard<std::mutex> lock( GetMutex() );
 	GetCallbackRef() = cb;
 }
 
 void FeedbackDispatcher::Send( const FixtureFeedback& msg )
 {
-	std::function<void(const FixtureFeedback&)>& cb = GetCallbackRef();
-	void* ctx = GetContextRef();
+	std::function<void(const FixtureFeedback&)> cb;
+	{
+		std::lock_guard<std::mutex> lock( GetMutex() );
+		cb = GetCallbackRef();
+	}
 	if ( cb ) cb( msg );
 }
 
diff --git a/src/FeedbackDispatcher.h b/src/FeedbackDispatcher.h
index eb43519..928be7d 100644
--- a/src/FeedbackDispatcher.h
+++ b/src/FeedbackDispatcher.h
@@ -15,6 +15,7 @@ namespace VectorworksMVR
     private:
         static std::function<void(const FixtureFeedback&)>& GetCallbackRef();
         static void*& GetContextRef();
+        static std::mutex& GetMutex();
 
     };
 }
diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 33443f9..cbaca68 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -12,8 +12,7 @@
 
 using namespace SceneData;
 
-static std::function<void( bool& )> fAbortCallback;
-static std::mutex fAbortCallbackMutex;
+static thread_local GdtfImportAbort* fCurrentImportAbort = nullptr;
 
 //------------------------------------------------------------------------------------
 // GdtfObject
@@ -83,26 +82,9 @@ void* GdtfObject::GetBind()
 	return fBindValue;
 }
 
-void GdtfObject::SetAbortCallback( const std::function<void( bool& )>& cb )
-{
-	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
-	fAbortCallback = cb;
-}
-
 bool GdtfObject::CheckAbort()
 {
-	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
-	if (fAbortCallback)
-	{
-		bool abort = false;
-		fAbortCallback(abort);
-		if ( abort )
-		{
-			fAbortReading = abort;
-		}
-		return abort;
-	}
-	return false;
+	return GdtfImportAbort::Check();
 }
 
 TXString GdtfObject::GetNodeReference()
@@ -112,6 +94,39 @@ TXString GdtfObject::GetNodeReference()
 	return "";
 }
 
+//------------------------------------------------------------------------------------
+// GdtfImportAbort
+GdtfImportAbort::GdtfImportAbort( const std::function<void( bool& )>& cb )
+{
+	fCallback			= cb;
+	fAborted			= false;
+	fOuter				= fCurrentImportAbort;
+	fCurrentImportAbort	= this;
+}
+
+GdtfImportAbort::~GdtfImportAbort()
+{
+	fCurrentImportAbort = fOuter;
+}
+
+bool GdtfImportAbort::IsAborted() const
+{
+	return fAborted;
+}
+
+/*static*/ bool GdtfImportAbort::Check()
+{
+	GdtfImportAbort* current = fCurrentImportAbort;
+	if ( ! current ) { return false; }
+
+	// Once the import was aborted, it stays aborted
+	if ( ! current->fAborted && current->fCallback )
+	{
+		current->fCallback( current->fAborted );
+	}
+	return current->fAborted;
+}
+
 //------------------------------------------------------------------------------------
 // Attributes
 GdtfActivationGroup::GdtfActivationGroup(const TXString& name)
@@ -7816,7 +7831,12 @@ double GdtfMeasurementPoint::GetEnergy()
 
 //------------------------------------------------------------------------------------
 // GdtfFixture
-TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
+thread_local TGdtfParsingErrorArray* GdtfFixture::__ERROR_CONTAINER_POINTER = nullptr;
+
+void GdtfFixture::SetAbortCallback( const std::function<void( bool& )>& cb )
+{
+	fAbortCallback = cb;
+}
 
 void GdtfFixture::ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& folder)
 {
@@ -7856,9 +7876,11 @@ void GdtfFixture::PrepareWorkingFolder(TXString folderName)
 
 bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 {
-	ASSERTN(kEveryone, __ERROR_CONTAINER_POINTER == nullptr);
+	TGdtfParsingErrorArray* outerErrorContainer = __ERROR_CONTAINER_POINTER;
 	__ERROR_CONTAINER_POINTER = & this->fErrorContainer; 
 
+	GdtfImportAbort abort (fAbortCallback);
+
 	ISceneDataZipBuffer xmlFileBuffer;
 		
 	//-------------------------------------------------------------------------------------------------
@@ -8008,7 +8030,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 					this->ReadFromNode(fixtureNode);
 					this->ResolveAllReferences();
 					
-					fReaded = complete;
+					fReaded = complete && ! abort.IsAborted();
 				}
 			}
 		}
@@ -8019,7 +8041,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 		}
 	}
 
-	__ERROR_CONTAINER_POINTER = nullptr;
+	__ERROR_CONTAINER_POINTER = outerErrorContainer;
 
 	return fReaded;
 }
diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index a0df347..600ad3d 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -91,8 +91,6 @@ namespace SceneData
 	private:
 		void*							fBindValue;
         IXMLFileNodePtr					fNode;
-		bool							fAbortReading = false;
-
 	public:
 		// Write
 		void							WriteToNode(IXMLFileNodePtr pContainerNode);
@@ -100,8 +98,6 @@ namespace SceneData
 
         void							GetNode(IXMLFileNodePtr& pNode);
 		
-		static void						SetAbortCallback( const std::function<void( bool& )>& cb );
-		
 		// Bind Behavoir
 		void							SetBind(void* ptr);
 		void*							GetBind();
@@ -121,6 +117,26 @@ namespace SceneData
 		
 	};
 	
+	//------------------------------------------------------------------------------------
+	// Asks the callback of the document that is imported by this thread, if the import should be aborted
+	class GdtfImportAbort
+	{
+	public:
+		GdtfImportAbort( const std::function<void( bool& )>& cb );
+		~GdtfImportAbort();
+
+		bool							IsAborted() const;
+		static bool						Check();
+
+	private:
+		GdtfImportAbort( const GdtfImportAbort& ) = delete;
+		GdtfImportAbort& operator=( const GdtfImportAbort& ) = delete;
+
+		std::function<void( bool& )>	fCallback;
+		bool							fAborted;
+		GdtfImportAbort*				fOuter; // The callback may import another document
+	};
+	
 	//------------------------------------------------------------------------------------
 	// Attribute Definitions
 	
@@ -2842,6 +2858,7 @@ namespace SceneData
 		TVWArray_IFileIdentifier				fLocalFiles;
 		TXStringArray 							fLocalFilesFullPath;
 		bool									fReaded;
+		std::function<void( bool& )>			fAbortCallback;
 		IFolderIdentifierPtr					fWorkingFolder;
         TGdtfParsingErrorArray					fParsingErrors;
 
@@ -2870,7 +2887,7 @@ namespace SceneData
 		bool                                                  fUseIndexes = false;
 
 	public:
-		static TGdtfParsingErrorArray*			__ERROR_CONTAINER_POINTER;
+		static thread_local TGdtfParsingErrorArray*	__ERROR_CONTAINER_POINTER;
         static void								AddError(const GdtfParsingError& error);
         TGdtfParsingErrorArray&					GetParsingErrorArray();
         
@@ -3029,6 +3046,7 @@ namespace SceneData
 		bool									ExportToFile(IZIPFilePtr& zipfile);
 		void									ImportFromFile(IFileIdentifierPtr inZipFile, const TXString& folder);
 		void									ImportFromBuffer(const char*buffer, size_t length, const TXString& folder);
+		void									SetAbortCallback( const std::function<void( bool& )>& cb );
 
 
 		bool									IsReaded();
diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 96226b1..8bda6a4 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -2462,6 +2462,7 @@ VCOMError VectorworksMVR::CGdtfFixtureImpl::FromBufferInternal(const char* buffe
 	// Check if this was good
 	if (!fFixtureObject) { return kVCOMError_Failed; }
 
+    fFixtureObject->SetAbortCallback(fAbortCallback);
     fFixtureObject->ImportFromBuffer(fBuffer, fBufferLength, gdtfFileName);
 	
 	// Check if you can read it
@@ -2714,7 +2715,7 @@ VCOMError VCOM_CALLTYPE CGdtfFixtureImpl::SetAbortCallback( const std::function<
 {
     if ( VCOM_FAILED(cb == nullptr) )	{return kVCOMError_Failed;}
 
-    SceneData::GdtfObject::SetAbortCallback(cb);
+    fAbortCallback = cb;
 
 	return kVCOMError_NoError;
 }
diff --git a/src/Implementation/CGdtfFixture.h b/src/Implementation/CGdtfFixture.h
index 1c83d09..a3db267 100755
--- a/src/Implementation/CGdtfFixture.h
+++ b/src/Implementation/CGdtfFixture.h
@@ -185,6 +185,8 @@ namespace VectorworksMVR
 
         char*                   fBuffer = nullptr;
         size_t                  fBufferLength;
+
+        std::function<void( bool& )> fAbortCallback;
         
 	};
 	
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 7fa7de5..37195c0 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -9,9 +9,6 @@
 
 using namespace SceneData;
 
-static std::function<void( bool& )> fAbortCallback;
-static std::mutex fAbortCallbackMutex;
-
 SceneDataGUID::SceneDataGUID(const TXString& uuid)
 {
 	ASSERTN(kEveryone, uuid != "");
@@ -4200,18 +4197,16 @@ void SceneDataExchange::GetAbortCallback( std::function<void( bool& )>& cb )
 
 bool SceneDataExchange::CheckAbort()
 {
-	std::lock_guard<std::mutex> lock(fAbortCallbackMutex);
-	if (fAbortCallback)
+	// Once the reading was aborted, it stays aborted
+	if ( fAbortReading ) return true;
+
+	std::function<void( bool& )> callback;
+	GetAbortCallback( callback );
+	if ( callback )
 	{
-		bool abort = false;
-		fAbortCallback(abort);
-		if ( abort )
-		{
-			fAbortReading = abort;
-		}
-		return abort;
+		callback( fAbortReading );
 	}
-	return false;
+	return fAbortReading;
 }
 
 size_t SceneDataExchange::GetMVRFileMajorVersion() const
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 56f2b91..58b309e 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -1024,6 +1024,8 @@ namespace SceneData
 
 		//Abort reading flag
 		bool								fAbortReading = false;
+		std::function<void( bool& )>		fAbortCallback;
+		std::mutex							fAbortCallbackMutex;
 
 		size_t								fMVRFileMajorVersion = 0;
 		size_t								fMVRFileMinorVersion = 0;
@@ -1112,7 +1114,7 @@ namespace SceneData
 		bool								GetDuplicatedUuids() const;		
 		SceneDataObjPtr						GetSceneObjByUUID( const SceneDataGUID& guid );
 		
-		static void							SetAbortCallback( const std::function<void( bool& )>& cb );
+		void								SetAbortCallback( const std::function<void( bool& )>& cb );
 		void								GetAbortCallback( std::function<void( bool& )>& cb );
 
 		size_t								GetMVRFileMajorVersion() const;
-- 
2.43.0


From c05782a9ce0982ceff59af482765f021f6a1aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 38/52] fix: the size and curve of a display are known
 attributes

---
 src/GDTFManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index cbaca68..244ed50 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -3056,6 +3056,9 @@ void GdtfGeometryDisplay::OnErrorCheck(const IXMLFileNodePtr& pNode)
 	optional.push_back(XML_GDTF_GeometryModelRef);
 	needed.push_back(XML_GDTF_GeometryMatrix);
 	needed.push_back(XML_GDTF_DisplayTexture);
+	optional.push_back(XML_GDTF_DisplayWidth);
+	optional.push_back(XML_GDTF_DisplayHeight);
+	optional.push_back(XML_GDTF_DisplayIsCurved);
 
 	//------------------------------------------------------------------------------------
 	// Check Attributes for node
-- 
2.43.0


From ccf9496eab7efa5e53a9955addeadbe0ee5931d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 39/52] fix: the main attribute is resolved for an attribute
 without feature

---
 src/GDTFManager.cpp | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 244ed50..96e875b 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -8736,24 +8736,25 @@ void GdtfFixture::ResolveAttribRefs()
 		// Attributes.Feature
 		GdtfFeaturePtr featPtr = nullptr;
 		TXString unresolvedFeat = attr->GetUnresolvedFeature();
-		if(unresolvedFeat.IsEmpty()) { continue; }
-
-		for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
-		{	
-			if(CheckAbort()) { return; }
-			for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
-			{				
-				if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
-			}
-		}
-		ASSERTN(kEveryone, featPtr != nullptr);
-		if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
-		else
+		if( ! unresolvedFeat.IsEmpty())
 		{
-			IXMLFileNodePtr node;
-			attr->GetNode(node);
-			GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
-			SceneData::GdtfFixture::AddError(error);
+			for (GdtfFeatureGroupPtr featGrp : fFeatureGroups)
+			{	
+				if(CheckAbort()) { return; }
+				for (GdtfFeaturePtr feat : featGrp->GetFeatureArray() )
+				{				
+					if (unresolvedFeat == feat->GetNodeReference() ) { featPtr = feat; break; }
+				}
+			}
+			ASSERTN(kEveryone, featPtr != nullptr);
+			if (featPtr != nullptr)	{ attr->SetFeature (featPtr); }
+			else
+			{
+				IXMLFileNodePtr node;
+				attr->GetNode(node);
+				GdtfParsingError error (GdtfDefines::EGdtfParsingError::eAttributeUnresolvedFeature, node);
+				SceneData::GdtfFixture::AddError(error);
+			}
 		}
 		
 		// ------------------------------------------------------------------------------------------
-- 
2.43.0


From 2f554b4cc6264f705a5931c4bf41b68c5140abb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 40/52] fix: a mapping definition without source can be stored
 and asked

---
 src/Implementation/CMappingDefinitionImpl.cpp | 1 +
 src/SceneDataExchange.cpp                     | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Implementation/CMappingDefinitionImpl.cpp b/src/Implementation/CMappingDefinitionImpl.cpp
index c94a939..b4e409c 100644
--- a/src/Implementation/CMappingDefinitionImpl.cpp
+++ b/src/Implementation/CMappingDefinitionImpl.cpp
@@ -72,6 +72,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CMappingDefinitionImpl::GetSource(ISou
 	if( ! fPtr) return kVCOMError_NotInitialized;
 	
 	SceneData::SceneDataSourceObjPtr source = fPtr->GetSource();
+	if( ! source) return kVCOMError_Failed;
 	
 	//---------------------------------------------------------------------------
 	// Initialize Object
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 37195c0..3a42ae3 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -808,7 +808,7 @@ void SceneDataMappingDefinitionObj::OnPrintToFile(IXMLFileNodePtr pNode, SceneDa
 		pSizeYNode->SetNodeValue(GdtfConverter::ConvertInteger(fSizeY));
 	}
 
-	fSource->PrintToFile(pNode, exchange);
+	if (fSource) { fSource->PrintToFile(pNode, exchange); }
 
 	IXMLFileNodePtr pScaleHandlingNode;
 	if (VCOM_SUCCEEDED(pNode->CreateChildNode(XML_Val_MappingDefinitionScaleHandling, &pScaleHandlingNode)))
-- 
2.43.0


From 8373db843369ee44cb6fceed38bad97759b7fccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 41/52] fix: GetProtocolAt hands out the protocol, arrays are
 bound checked

---
 src/Implementation/CSceneObjImpl.cpp | 9 +++++----
 src/SceneDataExchange.cpp            | 8 ++++----
 src/SceneDataExchange.h              | 8 ++++----
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/Implementation/CSceneObjImpl.cpp b/src/Implementation/CSceneObjImpl.cpp
index 1da2d4f..451bd30 100644
--- a/src/Implementation/CSceneObjImpl.cpp
+++ b/src/Implementation/CSceneObjImpl.cpp
@@ -1034,13 +1034,14 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 
 	// Check the psotion of the array
-	if (at > fixture->GetProtocolsArray().size() )
+	if (at >= fixture->GetProtocolsArray().size() )
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
 	}
 
-	SceneData::SceneDataProtocols protocol = fixture->GetProtocolsArray().at( at );
+	// The strings stay with the fixture
+	const SceneData::SceneDataProtocols& protocol = fixture->GetProtocolsArray().at( at );
 	SProtocol* pProtocol = new SProtocol;
 	pProtocol->fGeometry = protocol.GetGeometry().GetCharPtr();
 	pProtocol->fName = protocol.GetName().GetCharPtr();
@@ -1048,7 +1049,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetProtocolAt( size_t a
 	pProtocol->fVersion = protocol.GetVersion().GetCharPtr();
 	pProtocol->fType = protocol.GetType().GetCharPtr();
 
-	outProtocol = &pProtocol;
+	*outProtocol = pProtocol;
 
 	return kVCOMError_NoError;
 }
@@ -1087,7 +1088,7 @@ VectorworksMVR::VCOMError VectorworksMVR::CSceneObjImpl::GetAdressAt(size_t at,
 	if( ! fixture) return kVCOMError_NoFixtureObj;
 	
 	// Check the psotion of the array
-	if (at > fixture->GetAdressesArray().size())
+	if (at >= fixture->GetAdressesArray().size())
 	{
 		DSTOP((kEveryone, "Array overflow"));
 		return kVCOMError_Failed;
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 3a42ae3..e26d716 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1859,22 +1859,22 @@ SceneDataProtocols::SceneDataProtocols( const TXString& geometry, const TXString
 	fTransmision	= transmision;
 }
 
-TXString SceneDataProtocols::GetGeometry() const
+const TXString& SceneDataProtocols::GetGeometry() const
 {
 	return fGeometry;
 }
 
-TXString SceneDataProtocols::GetName() const
+const TXString& SceneDataProtocols::GetName() const
 {
 	return fName;
 }
 
-TXString SceneDataProtocols::GetType() const
+const TXString& SceneDataProtocols::GetType() const
 {
 	return fType;
 }
 
-TXString SceneDataProtocols::GetVersion() const
+const TXString& SceneDataProtocols::GetVersion() const
 {
 	return fVersion;
 }
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 58b309e..f1bb26f 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -740,10 +740,10 @@ namespace SceneData
 
 											SceneDataProtocols( const TXString& geometry, const TXString& name, const TXString& type, const TXString& version, const ETransmissionType& transmision );
 
-		TXString							GetGeometry() const;
-		TXString							GetName() const;
-		TXString							GetType() const;
-		TXString							GetVersion() const;
+		const TXString&						GetGeometry() const;
+		const TXString&						GetName() const;
+		const TXString&						GetType() const;
+		const TXString&						GetVersion() const;
 		ETransmissionType					GetTransmission() const;
 	};
 	typedef std::vector<SceneDataProtocols>	SceneDataProtocolsArray;
-- 
2.43.0


From dc6f10ec34083b0b1a8cba7e69bf72945fcc6105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 42/52] fix: a group keeps the matrix it is created with

---
 src/SceneDataExchange.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index e26d716..87e5262 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3176,6 +3176,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 {
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
@@ -3184,6 +3185,7 @@ SceneDataGroupObjPtr SceneDataExchange::CreateGroupObject(const SceneDataGUID& g
 	SceneDataGroupObjPtr newGroup = new SceneDataGroupObj(guid);
 	addToContainer->AddObject(newGroup);
 	newGroup->setName(name);
+	newGroup->SetTransformMatrix(offset);
 	return newGroup;
 }
 
-- 
2.43.0


From 6ee956c2dfdf9882899a3a1bb82d782dfb8f1361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 43/52] fix: classes are stored in the AuxData of the scene

---
 src/SceneDataExchange.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 87e5262..5dab36e 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3658,6 +3658,11 @@ bool SceneDataExchange::WriteXml(const IFolderIdentifierPtr& folder, IXMLFileIOB
 						position->PrintToFile( pAuxDataNode, this );
 					}
 
+					for ( const auto& classObj : fClasses )
+					{
+						classObj->PrintToFile( pAuxDataNode, this );
+					}
+
 					for ( const auto& symDef : fSymDefObjs )
 					{
 						symDef->PrintToFile( pAuxDataNode, this );
-- 
2.43.0


From fb932a03eb36b5c672b8242ba160b5520cbc22fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 44/52] fix: a file added to a GDTF is part of the buffer as
 well

---
 src/Implementation/CGdtfFixture.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Implementation/CGdtfFixture.cpp b/src/Implementation/CGdtfFixture.cpp
index 8bda6a4..41b9066 100755
--- a/src/Implementation/CGdtfFixture.cpp
+++ b/src/Implementation/CGdtfFixture.cpp
@@ -155,7 +155,16 @@ VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddFileToGdtfFile(Mv
     // Append the SubFoldername for resources.
     strFileName = SceneData::SceneDataZip::GetResourceSubFolder(resType) + strFileName;
 
-	return fZipFile->AddFile(strFileName, file);
+	const VCOMError added = fZipFile->AddFile(strFileName, file);
+	if (VCOM_FAILED(added)) { return added; }
+
+	// Keep the content, the buffer of the document needs it as well
+	strFileName.Replace("\\", "/");
+	CZIPFileIOBufferImpl* buffer = new CZIPFileIOBufferImpl();
+	if (VCOM_FAILED(fZipFile->GetFile(strFileName.GetStdString(), buffer))) { delete buffer; return kVCOMError_Failed; }
+	fBuffersAdded.push_back({strFileName, buffer});
+
+	return kVCOMError_NoError;
 }
 
 VectorworksMVR::VCOMError VectorworksMVR::CGdtfFixtureImpl::AddBufferToGdtfFile(MvrString filename, const char* inBuffer, size_t length, GdtfDefines::ERessourceType resType)
-- 
2.43.0


From 366c5f58a5cb35ab81680654017ac1536114a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 45/52] fix: numbers that are not set have a defined value

---
 src/GDTFManager.h       | 88 ++++++++++++++++++++---------------------
 src/SceneDataExchange.h | 14 +++----
 2 files changed, 51 insertions(+), 51 deletions(-)

diff --git a/src/GDTFManager.h b/src/GDTFManager.h
index 600ad3d..5419ad4 100644
--- a/src/GDTFManager.h
+++ b/src/GDTFManager.h
@@ -391,13 +391,13 @@ namespace SceneData
 												GdtfWheelSlotAnimationSystem();
 												~GdtfWheelSlotAnimationSystem();
 	private:
-		double									fP1_X;
-		double									fP1_Y;
-		double									fP2_X;
-		double									fP2_Y;
-		double									fP3_X;
-		double									fP3_Y;
-		double									fRadius;
+		double									fP1_X = 0;
+		double									fP1_Y = 0;
+		double									fP2_X = 0;
+		double									fP2_Y = 0;
+		double									fP3_X = 0;
+		double									fP3_Y = 0;
+		double									fRadius = 0;
 
     public:
         double									GetP1_X();
@@ -996,9 +996,9 @@ namespace SceneData
 												~GdtfGeometryDisplay();
 	private:
 		TXString								fTexture;
-		size_t									fWidth;
-		size_t									fHeight;
-		bool 									fIsCurved;
+		size_t									fWidth = 0;
+		size_t									fHeight = 0;
+		bool 									fIsCurved = false;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1052,15 +1052,15 @@ namespace SceneData
 	
 	private:
 		EGdtfLaserColorType 					fColorType;
-		double									fColor; //Wavelength
-		double									fOutputStrength;
+		double									fColor = 0; //Wavelength
+		double									fOutputStrength = 0;
 		GdtfPhysicalEmitter*					fEmitter;
-		double 									fBeamDiameter;
-		double									fBeamDivergenceMin;
-		double									fBeamDivergenceMax;
-		double									fScanAnglePan;
-		double									fScanAngleTilt;
-		double									fScanSpeed;
+		double 									fBeamDiameter = 0;
+		double									fBeamDivergenceMin = 0;
+		double									fBeamDivergenceMax = 0;
+		double									fScanAnglePan = 0;
+		double									fScanAngleTilt = 0;
+		double									fScanSpeed = 0;
 
 		TXString 								fUnresolvedEmitter;
 
@@ -1115,8 +1115,8 @@ namespace SceneData
 												~GdtfPinPatch();
 	private:
 		GdtfGeometryWiringObjectPtr				fToWiringObject;
-		size_t									fFromPin;
-		size_t									fToPin;
+		size_t									fFromPin = 0;
+		size_t									fToPin = 0;
 
 		TXString								fUnresolvedWiringObject;
 
@@ -1230,7 +1230,7 @@ namespace SceneData
 												GdtfGeometryInventory(const TXString& name, GdtfModelPtr refToModel,const VWTransformMatrix& ma, GdtfGeometry* parent);
 												~GdtfGeometryInventory();
 	private:
-		size_t									fCount;
+		size_t									fCount = 0;
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1255,10 +1255,10 @@ namespace SceneData
 	
 	private:
 		GdtfGeometry*   						fLinkedGeometry;
-		EGdtfStructureType 						fStructureType;
-		EGdtfCrossSectionType 					fCrossSectionType;
-		double									fCrossSectionHeight; //Tube
-		double									fCrossSectionWallThickness; //Tube
+		EGdtfStructureType 						fStructureType = EGdtfStructureType::CenterLineBased;
+		EGdtfCrossSectionType 					fCrossSectionType = EGdtfCrossSectionType::TrussFramework;
+		double									fCrossSectionHeight = 0; //Tube
+		double									fCrossSectionWallThickness = 0; //Tube
 		TXString								fTrussCrossSection; //TrussFramework
 
 		TXString 								fUnresolvedLinkedGeometry;
@@ -1300,21 +1300,21 @@ namespace SceneData
 												~GdtfGeometrySupport();
 	
 	private:
-		EGdtfSupportType						fSupportType;
-		double 									fCapacityX;
-		double 									fCapacityY;
-		double 									fCapacityZ;
-		double 									fCapacityXX;
-		double 									fCapacityYY;
-		double 									fCapacityZZ;
+		EGdtfSupportType						fSupportType = EGdtfSupportType::Rope;
+		double 									fCapacityX = 0;
+		double 									fCapacityY = 0;
+		double 									fCapacityZ = 0;
+		double 									fCapacityXX = 0;
+		double 									fCapacityYY = 0;
+		double 									fCapacityZZ = 0;
 		TXString 								fRopeCrossSection; 	//Rope
 		VWPoint3D 								fRopeOffset; 		//Rope
-		double 									fResistanceX;		//GroundSupport
-		double 									fResistanceY;		//GroundSupport
-		double 									fResistanceZ;		//GroundSupport
-		double 									fResistanceXX;		//GroundSupport
-		double 									fResistanceYY;		//GroundSupport
-		double 									fResistanceZZ;		//GroundSupport
+		double 									fResistanceX = 0;		//GroundSupport
+		double 									fResistanceY = 0;		//GroundSupport
+		double 									fResistanceZ = 0;		//GroundSupport
+		double 									fResistanceXX = 0;		//GroundSupport
+		double 									fResistanceYY = 0;		//GroundSupport
+		double 									fResistanceZZ = 0;		//GroundSupport
 
 	public:
 		virtual EGdtfObjectType					GetObjectType();
@@ -1963,7 +1963,7 @@ namespace SceneData
 												~GdtfMacroDMXValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fValue;
+		DmxValue								fValue = 0;
 		TXString								funresolvedDMXChannel;
 		GdtfDmxChannelPtr						fDMXChannel;
 	public:
@@ -1994,7 +1994,7 @@ namespace SceneData
 												GdtfMacroDMXStep(double duration);
 												~GdtfMacroDMXStep();
 	private:
-		double									fDuration;
+		double									fDuration = 0;
 		// Childs
 		TGdtfMacroDMXValueArray					fDMXValues;
 	public:
@@ -2043,7 +2043,7 @@ namespace SceneData
 												~GdtfMacroVisualValue();
 	private:
 		TXString 								funresolvedValue;
-		DmxValue								fDmxValue;
+		DmxValue								fDmxValue = 0;
 		TXString								fUnresolvedChannelFunctionRef;
 		GdtfDmxChannelFunctionPtr				fChannelFunctionRef;
 	public:
@@ -2074,7 +2074,7 @@ namespace SceneData
 												GdtfMacroVisualStep();
 												~GdtfMacroVisualStep();
 	private:
-		double									fDuration;
+		double									fDuration = 0;
 		double									fFade;
 		double									fDelay;
 		// Childs
@@ -2362,8 +2362,8 @@ namespace SceneData
 												GdtfMap(Uint32 key, Uint32 value);
 												~GdtfMap();
     private:
-        Uint32									fKey;
-		Uint32									fValue;
+        Uint32									fKey = 0;
+		Uint32									fValue = 0;
     public:
         virtual EGdtfObjectType					GetObjectType();
         // Getters
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index f1bb26f..755d015 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -274,7 +274,7 @@ namespace SceneData
 	private:
 		TXString 						fValue;
 		TXString 						fLinkedGeometry;
-		GdtfDefines::ESourceType		fType;
+		GdtfDefines::ESourceType		fType = GdtfDefines::ESourceType::NDI;
 		
 	public:
 		virtual const TXString& 		GetValue();
@@ -346,11 +346,11 @@ namespace SceneData
 	private:
 
 		SceneDataGUID					fLinkedDefUuid;
-		Uint32							fUx;
-		Uint32							fUy;
-		Uint32							fOx;
-		Uint32							fOy;
-		double							fRz;
+		Uint32							fUx = 0;
+		Uint32							fUy = 0;
+		Uint32							fOx = 0;
+		Uint32							fOy = 0;
+		double							fRz = 0;
 		
 	public:
 		virtual SceneDataGUID			GetLinkedDefUuid();
@@ -919,7 +919,7 @@ namespace SceneData
 	
 	private:
 		SceneDataSourceObjPtr 				fSource;
-		EScaleHandlingType					fScaleHandling;
+		EScaleHandlingType					fScaleHandling = EScaleHandlingType::ScaleKeepRatio;
 
 	public:
 		virtual SceneDataSourceObjPtr 		GetVideoSource();
-- 
2.43.0


From 33ff416d837a889f728e4921329c8d9d49befa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:47 +0000
Subject: [PATCH 46/52] fix: references are resolved for layers, groups and
 objects when everything is read

---
 src/SceneDataExchange.cpp | 84 ++++++++++++++++++++++++---------------
 src/SceneDataExchange.h   |  3 ++
 2 files changed, 54 insertions(+), 33 deletions(-)

diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index 5dab36e..ec309ed 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -238,6 +238,11 @@ void SceneDataObj::setMultipatchParent( SceneDataObj* value )
 	fMultipatchObj = value;
 }
 
+const TXString& SceneDataObj::getUnresolvedMultipatch() const
+{
+	return fUnresolvedMultipatch;
+}
+
 SceneDataObj* SceneDataObj::getMultipatchParent() const
 {
 	return fMultipatchObj;
@@ -301,15 +306,8 @@ void SceneDataObj::OnReadFromNode(const IXMLFileNodePtr& pNode, SceneDataExchang
 	pNode->GetNodeAttributeValue(XML_Val_NameAttrName, name);
 	this->setName(name);
 
-	TXString multipatch;
-	pNode->GetNodeAttributeValue( XML_Val_MultipatchAttrName, multipatch );
-
-	if ( !multipatch.IsEmpty() )
-	{	
-		SceneDataGUID uuid( multipatch );
-		const auto& multipatchObj = exchange->GetSceneObjByUUID(uuid);
-		this->setMultipatchParent(multipatchObj);
-	}
+	// The object may be read later, so this is resolved when everything is read
+	pNode->GetNodeAttributeValue( XML_Val_MultipatchAttrName, fUnresolvedMultipatch );
 }
 
 // ----------------------------------------------------------------------------------------------------------------------------------
@@ -3980,9 +3978,40 @@ bool SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 	}
 
 	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
-	// Resolve classes from uuids
-	for (SceneDataObjWithMatrixPtr scObj : fSceneObjects)
+	// Collect the layers, the groups and the objects
+	SceneDataObjWithMatrixArray allObjects;
+	CollectObjects(fChildObjs, allObjects);
+
+	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
+	// Resolve Symbols in Symbols
+	for (const auto& it : fSymDefMap)
+	{
+		for (SceneDataGeoInstanceObjPtr geoObj : it.second->getGeometryArray())
+		{
+			if (geoObj->IsSymDef())
+			{
+				SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
+				SceneDataSymDefObjPtr ptr    = FindSymDef(symObj->GetUnresolvedSymDef());
+
+				ASSERTN(kEveryone, ptr);
+				if(ptr) { symObj->SetSymDef(ptr); }
+			}
+		}
+	}
+
+	//------------------------------------------------------------------------------------------------------------------------------------------------------------------------
+	// Resolve classes, multipatch parents and symbols from uuids
+	for (SceneDataObjWithMatrixPtr scObj : allObjects)
 	{
+		if (scObj->getUnresolvedMultipatch().IsEmpty() == false)
+		{
+			SceneDataGUID multipatchUuid( scObj->getUnresolvedMultipatch() );
+			for (SceneDataObjWithMatrixPtr parent : allObjects)
+			{
+				if (parent->getGuid().GetUuidObj() == multipatchUuid.GetUuidObj()) { scObj->setMultipatchParent(parent); break; }
+			}
+		}
+
 		TXString classUuid		= scObj->GetUnresolvedClass();
 		
 		if (classUuid.IsEmpty() == false)
@@ -4003,28 +4032,6 @@ bool SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 			
 		}
 
-        //-----------------------------------------------------------------------------
-        // Resolve Symbols in Symbols
-        TSymDefMap::iterator it = fSymDefMap.begin();
-        while(it != fSymDefMap.end())
-        {
-            SceneDataSymDefObjPtr symDef = it->second;
-
-            for (SceneDataGeoInstanceObjPtr geoObj : symDef->getGeometryArray()) 
-            {
-                if (geoObj->IsSymDef())
-                {
-				    SceneDataSymbolObjPtr symObj = static_cast<SceneDataSymbolObjPtr>(geoObj);
-				    SceneDataSymDefObjPtr ptr    = FindSymDef(symObj->GetUnresolvedSymDef());
-				
-				    ASSERTN(kEveryone, ptr);
-				    if(ptr) { symObj->SetSymDef(ptr); }
-                }
-            }
-
-            it++;
-        }
-
 		for(SceneDataGeoInstanceObjPtr geoObj : scObj->GetGeometryArr())
 		{
 			if(geoObj->IsSymDef())
@@ -4042,6 +4049,17 @@ bool SceneDataExchange::ReadFromGeneralSceneDescription(ISceneDataZipBuffer& xml
 	return readed && ! fAbortReading;
 }
 
+void SceneDataExchange::CollectObjects(const SceneDataObjWithMatrixArray& objects, SceneDataObjWithMatrixArray& outObjects)
+{
+	for (SceneDataObjWithMatrixPtr object : objects)
+	{
+		outObjects.push_back(object);
+
+		SceneDataGroupObjPtr group = dynamic_cast<SceneDataGroupObjPtr>(object);
+		if (group) { CollectObjects(group->GetChildArray(), outObjects); }
+	}
+}
+
 SceneDataSymDefObjPtr SceneDataExchange::FindSymDef(const TXString& uuid)
 {
 	TSymDefMap::iterator it = fSymDefMap.find(uuid);
diff --git a/src/SceneDataExchange.h b/src/SceneDataExchange.h
index 755d015..873c492 100644
--- a/src/SceneDataExchange.h
+++ b/src/SceneDataExchange.h
@@ -111,6 +111,7 @@ namespace SceneData
 		SceneDataGUID					fGuid;
 		TXString						fName;
 		SceneDataObj*					fMultipatchObj = nullptr;
+		TXString						fUnresolvedMultipatch;
     
 	public:   
 		SceneDataGUID&					getGuid();
@@ -118,6 +119,7 @@ namespace SceneData
 		void							setName(const TXString& value);
     
 		void							setMultipatchParent( SceneDataObj* value );
+		const TXString&					getUnresolvedMultipatch() const;
 		SceneDataObj*				    getMultipatchParent() const;
     
 		// Write    
@@ -1113,6 +1115,7 @@ namespace SceneData
 		bool								GetAttachedFileCountAt(size_t at, IFileIdentifierPtr& outFile);
 		bool								GetDuplicatedUuids() const;		
 		SceneDataObjPtr						GetSceneObjByUUID( const SceneDataGUID& guid );
+		void								CollectObjects( const SceneDataObjWithMatrixArray& objects, SceneDataObjWithMatrixArray& outObjects );
 		
 		void								SetAbortCallback( const std::function<void( bool& )>& cb );
 		void								GetAbortCallback( std::function<void( bool& )>& cb );
-- 
2.43.0


From 8fcfac8244f2973e1249a174673b407a54f8970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 47/52] fix: a parsing error without a node

---
 src/GdtfError.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/GdtfError.cpp b/src/GdtfError.cpp
index ba2191b..0361cf3 100644
--- a/src/GdtfError.cpp
+++ b/src/GdtfError.cpp
@@ -27,6 +27,12 @@ GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, size_t l
 GdtfParsingError::GdtfParsingError(GdtfDefines::EGdtfParsingError type, const IXMLFileNodePtr& pNode)
 {
     fErrorType          = type;
+    fLineNumber         = 0;
+    fColumn             = 0;
+
+    // There is not always a node the error belongs to
+    if (! pNode)	{ return; }
+
     pNode->GetLineNumber(fLineNumber, fColumn);
     pNode->GetNodeName(fNodeName);
 
-- 
2.43.0


From c6464b579db1d18459b45f4420070a983d6ca57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 48/52] fix: the name of a DMX channel whose function has no
 attribute

---
 src/GDTFManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 96e875b..7b0fd36 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -5673,7 +5673,7 @@ const TXString& GdtfDmxChannel::GetName()
 		TXString dmxChannelName;
 		if(fGeomRef) { dmxChannelName += fGeomRef->GetName(); }
 		dmxChannelName += "_";
-		if(fLogicalChannels.size() > 0) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
+		if(fLogicalChannels.size() > 0 && fLogicalChannels[0]->GetAttribute()) { dmxChannelName += fLogicalChannels[0]->GetAttribute()->GetName(); }
 		
 		this->SetName(dmxChannelName);
 
-- 
2.43.0


From 0516c8913e65e65e6656d3da4d5c297ff9e1b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 49/52] fix: attached files of a file that could not be read
 completely

---
 src/Implementation/CMediaRessourceVectorImpl.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Implementation/CMediaRessourceVectorImpl.cpp b/src/Implementation/CMediaRessourceVectorImpl.cpp
index a29c2cd..a9e8b30 100644
--- a/src/Implementation/CMediaRessourceVectorImpl.cpp
+++ b/src/Implementation/CMediaRessourceVectorImpl.cpp
@@ -1007,14 +1007,13 @@ VectorworksMVR::VCOMError VectorworksMVR::CMediaRessourceVectorImpl::OpenForRead
 	fExchangeObj.InitializeForImport();
 	fReadMode = true;
 	
-	if (fExchangeObj.ReadFromFile(fPath))	
-	{ 
-		// Prepare the Attached File Count
-		fullPathStorage.clear();
-		fullPathStorage.resize(fExchangeObj.GetAttachedFileCount(), TXString());
+	bool read = fExchangeObj.ReadFromFile(fPath);
 
-		return kVCOMError_NoError; 
-	}
+	// Prepare the Attached File Count, there may be files as well when the rest could not be read
+	fullPathStorage.clear();
+	fullPathStorage.resize(fExchangeObj.GetAttachedFileCount(), TXString());
+
+	if (read)	{ return kVCOMError_NoError; }
 	
 	// If the file could not be read, we return a no file error
 	return kVCOMError_FileNotFound;
-- 
2.43.0


From 0f0f850d61e8038beac116d69618078f79d8eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 50/52] fix: an import fails when there is no working folder
 for its files

---
 src/GDTFManager.cpp       | 1 +
 src/SceneDataExchange.cpp | 3 +++
 src/XmlFileHelper.cpp     | 6 ++++++
 src/XmlFileHelper.h       | 2 ++
 4 files changed, 12 insertions(+)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 7b0fd36..5e248e7 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -7946,6 +7946,7 @@ bool GdtfFixture::ImportFromZip(IZIPFilePtr& zipfile)
 				// An entry that would be written somewhere else, or that is there already under this name is not used
 				inPath = fileName;
 				if (fFileBuffers.find(entryName) != fFileBuffers.end())				{ continue; }
+				if ( ! SceneDataWorkingFolder::IsSet(fWorkingFolder))				{ complete = false; continue; }
 				if ( ! SceneDataWorkingFolder::PrepareFile(fWorkingFolder, file))	{ continue; }
 
 				// write the data into the filebuffer map.
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index ec309ed..b785f6e 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -3766,6 +3766,9 @@ bool SceneDataExchange::ReadFromFile(const IFileIdentifierPtr& file)
 			IFileIdentifierPtr file (IID_FileIdentifier);
 			file->Set(fWorkingFolder, outPath);
 			
+			// There is nowhere to put the file when the working folder could not be created
+			if ( ! SceneDataWorkingFolder::IsSet(fWorkingFolder)) { complete = false; continue; }
+
 			// An entry that would be written somewhere else is not used
 			if ( ! SceneDataWorkingFolder::PrepareFile(fWorkingFolder, file)) { continue; }
 			
diff --git a/src/XmlFileHelper.cpp b/src/XmlFileHelper.cpp
index cec04a0..9009d66 100644
--- a/src/XmlFileHelper.cpp
+++ b/src/XmlFileHelper.cpp
@@ -2330,6 +2330,12 @@ static std::set<std::string>& WorkingFoldersInUse()
 	}
 }
 
+/*static*/ bool SceneDataWorkingFolder::IsSet(const IFolderIdentifierPtr& folder)
+{
+	TXString path;
+	return folder && VCOM_SUCCEEDED(folder->GetFullPath(path));
+}
+
 /*static*/ bool SceneDataWorkingFolder::PrepareFile(const IFolderIdentifierPtr& folder, const IFileIdentifierPtr& file)
 {
 	TXString				path;
diff --git a/src/XmlFileHelper.h b/src/XmlFileHelper.h
index 1dd0e9c..fda4ce8 100644
--- a/src/XmlFileHelper.h
+++ b/src/XmlFileHelper.h
@@ -204,6 +204,8 @@ namespace SceneData
 	public:
 		// Creates an empty folder with this name in the parent folder, or one with a number appended when the name is in use
 		static IFolderIdentifierPtr	Acquire(const IFolderIdentifierPtr& parent, const TXString& name);
+		// The folder is not set when it could not be created
+		static bool					IsSet(const IFolderIdentifierPtr& folder);
 		// Creates the folder for a file that will be extracted, fails if the file would not be in the working folder
 		static bool					PrepareFile(const IFolderIdentifierPtr& folder, const IFileIdentifierPtr& file);
 		// Deletes the extracted files and the folders they are in
-- 
2.43.0


From eed4da15bfa48c557f36170504c9f23f2f4b7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 51/52] fix: a GDTF with references that are not resolved can
 be stored

---
 src/GDTFManager.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/GDTFManager.cpp b/src/GDTFManager.cpp
index 5e248e7..b02cc28 100644
--- a/src/GDTFManager.cpp
+++ b/src/GDTFManager.cpp
@@ -11066,7 +11066,7 @@ void GdtfDMXPersonality::OnPrintToFile(IXMLFileNodePtr pNode)
     //------------------------------------------------------------------------------------
     // Print the attributes
     pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityValue, GdtfConverter::ConvertHexValue(fValue));
-    pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() );
+    if (fDMXMode) { pNode->SetNodeAttributeValue(XML_GDTF_DMXPersonalityDMXMode, fDMXMode->GetModeName() ); }
 }
 
 void GdtfDMXPersonality::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -11833,7 +11833,7 @@ void SceneData::GdtfMacroDMXValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrValue, GdtfConverter::ConvertDMXValue(fValue, resolution));
 	//
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() );
+	if(fDMXChannel) { pNode->SetNodeAttributeValue(XML_GDTF_MacroDMXValue_AttrChannel, fDMXChannel->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroDMXValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
@@ -12144,7 +12144,7 @@ void SceneData::GdtfMacroVisualValue::OnPrintToFile(IXMLFileNodePtr pNode)
 	//------------------------------------------------------------------------------------
 	// Print the attributes
 	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrValue, GdtfConverter::ConvertDMXValue(fDmxValue, resolution));
-	pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() );
+	if(fChannelFunctionRef) { pNode->SetNodeAttributeValue(XML_GDTF_MacroVisualValue_AttrChanFunc, fChannelFunctionRef->GetNodeReference() ); }
 }
 
 void SceneData::GdtfMacroVisualValue::OnReadFromNode(const IXMLFileNodePtr& pNode)
-- 
2.43.0


From 46f8015b0cf5dd6e8639231c288bbe280c6c22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 52/52] fix: write and read numbers with a decimal point in all
 locales

---
 src/GSString.cpp          | 35 +++++++++++++++++++++++++++++++----
 src/SceneDataExchange.cpp |  2 +-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/GSString.cpp b/src/GSString.cpp
index e460269..e32cb2d 100644
--- a/src/GSString.cpp
+++ b/src/GSString.cpp
@@ -17,6 +17,13 @@
 #include <iostream>
 #include <codecvt>
 #include <iomanip>
+#include <locale>
+#include <locale.h>
+#include <sstream>
+#include <stdlib.h>
+#if GS_MAC
+#include <xlocale.h>
+#endif
 
 #if GS_WIN
 // For Unicode normalization form (precomposed v.s. decomposed)
@@ -37,6 +44,26 @@ namespace VectorworksMVR
 {
 
 
+// Documents have a decimal point in all languages
+static std::string RealToString(Real64 value)
+{
+	std::ostringstream out;
+	out.imbue(std::locale::classic());
+	out << std::fixed << value;
+	return out.str();
+}
+
+static Real64 StringToReal(const char* text)
+{
+#if GS_WIN
+	static const _locale_t locale = _create_locale(LC_ALL, "C");
+	return _strtod_l(text, nullptr, locale);
+#else
+	static const locale_t locale = newlocale(LC_ALL_MASK, "C", (locale_t)0);
+	return strtod_l(text, nullptr, locale);
+#endif
+}
+
 inline void utf32ToTXCharBuffer(char32_t input, TXChar* output);
 inline void utf32BufferToTXCharBuffer(const char32_t* input, TXChar* output, size_t numInputChars = -1);
 inline void txCharBufferToUtf32Buffer(const TXChar* input, char32_t* output, size_t bufElemNum = -1);
@@ -991,7 +1018,7 @@ TXString& TXString::operator<<(Uint64 n)
 // Appends one real number
 TXString& TXString::operator<<(double number)
 {
-	return (*this += std::to_string(number).c_str());
+	return (*this += RealToString(number).c_str());
 }
 
 //=======================================================================================
@@ -2037,7 +2064,7 @@ Sint64 TXString::atoi64() const
 // returned.
 Real64 TXString::atof() const
 {
-	return ::atof(*this);
+	return StringToReal(*this);
 }
 
 //=======================================================================================
@@ -2051,7 +2078,7 @@ TXString& TXString::itoa(Sint64 value)
 // Sets the current string to the input value
 TXString& TXString::ftoa(Real64 value)
 {
-	return (*this = std::to_string(value));
+	return (*this = RealToString(value));
 }
 
 //=======================================================================================
@@ -2088,7 +2115,7 @@ bool TXString::IsCompleteNumber()
 //=======================================================================================
 /*static*/ TXString TXString::ToStringReal(Real64 value)
 {
-	return std::to_string(value);
+	return RealToString(value);
 }
 
 //=======================================================================================
diff --git a/src/SceneDataExchange.cpp b/src/SceneDataExchange.cpp
index b785f6e..59163ab 100644
--- a/src/SceneDataExchange.cpp
+++ b/src/SceneDataExchange.cpp
@@ -1187,7 +1187,7 @@ void SceneDataCustomCommand::OnPrintToFile(IXMLFileNodePtr pNode, SceneDataExcha
 	// Set value	
 	TXString customCommandString = fChannelFunction;
 	customCommandString += fIsPercentage ? "/percent,f " : ",f ";
-	customCommandString += std::to_string(fValue);
+	customCommandString += TXString::ToStringReal(fValue);
 
 	pNode->SetNodeValue(customCommandString);
 }
-- 
2.43.0

