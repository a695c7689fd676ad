From e718ea7a0b9ad7a6ecff9625d884c62af7f79cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 001/121] fix: keep a '%' that does not start a hex escape when
 reading XML text

---
 FCollada/FUtils/FUXmlParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlParser.cpp b/FCollada/FUtils/FUXmlParser.cpp
index 2080550..7211ff7 100644
--- a/FCollada/FUtils/FUXmlParser.cpp
+++ b/FCollada/FUtils/FUXmlParser.cpp
@@ -27,7 +27,7 @@ namespace FUXmlParser
 		char c;
 		while ((c = *s) != 0)
 		{
-			if (c != '%')
+			if (c != '%' || !isxdigit((uint8) s[1]) || !isxdigit((uint8) s[2]))
 			{
 				xmlSBuilder.append(c);
 				++s;
@@ -51,7 +51,7 @@ namespace FUXmlParser
 		fchar c;
 		while ((c = *s) != 0)
 		{
-			if (c != (fchar) '%')
+			if (c != (fchar) '%' || !isxdigit((uint8) s[1]) || !isxdigit((uint8) s[2]))
 			{
 				xmlBuilder.append(c);
 				++s;
-- 
2.43.0


From d7285dd46991a11118f921017095ef7dd0769fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 002/121] fix: release the temporary node instances made while
 saving a scene node

---
 FColladaPlugins/FArchiveXML/FAXSceneExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 5b26d69..0809691 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -135,6 +135,7 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 				FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(const_cast<FCDocument*>(sceneNode->GetDocument()), NULL, FCDEntity::SCENE_NODE);
 				instance->SetEntity(const_cast<FCDSceneNode*>(child));
 				FArchiveXML::LetWriteObject(instance, node);
+				SAFE_RELEASE(instance);
 			}
 		}
 	}
-- 
2.43.0


From 7f2b322fc3c9cfa2a2c4cb15481fe3802e8527a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 003/121] fix: do not leave an instances type in the extra tree
 of a saved scene node

---
 FColladaPlugins/FArchiveXML/FAXSceneExport.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
index 0809691..73f9f74 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneExport.cpp
@@ -81,6 +81,7 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 	// Write out the instances
 	// Some of the FCollada instance types are not a part of COLLADA, so buffer them to export in the <extra>.
 	FCDENodeList extraInstanceNodes;
+	FCDEType* extraInstanceType = NULL;
 	FCDETechnique* extraInstanceTechnique = NULL;
 	size_t instanceCount = sceneNode->GetInstanceCount();
 	for (size_t i = 0; i < instanceCount; ++i)
@@ -91,8 +92,8 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 			if (extraInstanceTechnique == NULL)
 			{
 				FCDExtra* extra = const_cast<FCDExtra*>(sceneNode->GetExtra());
-				FCDEType* extraType = extra->AddType(DAEFC_INSTANCES_TYPE);
-				extraInstanceTechnique = extraType->AddTechnique(DAE_FCOLLADA_PROFILE);
+				extraInstanceType = extra->AddType(DAEFC_INSTANCES_TYPE);
+				extraInstanceTechnique = extraInstanceType->AddTechnique(DAE_FCOLLADA_PROFILE);
 			}
 
 			xmlNode* base = FUXmlWriter::CreateNode("_temp_");
@@ -162,6 +163,11 @@ xmlNode* FArchiveXML::WriteSceneNode(FCDObject* object, xmlNode* parentNode)
 		if (extraTechnique->GetChildNodeCount() == 0) SAFE_RELEASE(extraTechnique);
 	}
 	CLEAR_POINTER_VECTOR(extraInstanceNodes);
+	if (extraInstanceTechnique != NULL && extraInstanceTechnique->GetChildNodeCount() == 0)
+	{
+		SAFE_RELEASE(extraInstanceTechnique);
+		if (extraInstanceType->GetTechniqueCount() == 0) SAFE_RELEASE(extraInstanceType);
+	}
 
 	return parentNode;
 }
-- 
2.43.0


From ee9e43f74cb128f81888936033b2b3f2917dcf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 004/121] fix: save the extra trees of camera, light, node and
 force field instances

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index 9dafc27..a90cfc3 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -85,6 +85,11 @@ xmlNode* FArchiveXML::WriteEntityInstance(FCDObject* object, xmlNode* parentNode
 	fstring uriString = entityInstance->GetDocument()->GetFileManager()->CleanUri(uri);
 	AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, uriString);
 
+	// The more specific instances write out their extra trees themselves, after their own information.
+	if (entityInstance->GetObjectType() == FCDEntityInstance::GetClassType())
+	{
+		FArchiveXML::WriteEntityInstanceExtra(entityInstance, instanceNode);
+	}
 	return instanceNode;
 }
 
-- 
2.43.0


From 633e0e155f8c627c285efa236695438006d0f503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 005/121] fix: save the extra tree of a controller instance
 once instead of twice

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index a90cfc3..a342392 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -156,7 +156,7 @@ xmlNode* FArchiveXML::WriteControllerInstance(FCDObject* object, xmlNode* parent
 		AddContent(skeletonNode, builder);
 	}
 
-	FArchiveXML::WriteEntityInstanceExtra(controllerInstance, instanceNode);
+	// The extra tree has already been written out by WriteGeometryInstance.
 	return instanceNode;
 }
 
-- 
2.43.0


From 3266c454b98d911184b20fbe6b22c7b6ce3751b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 006/121] fix: resolve node instances that come before the node
 they instantiate

---
 FColladaPlugins/FArchiveXML/FAXSceneImport.cpp |  7 ++++++-
 FColladaPlugins/FArchiveXML/FAXStructures.h    | 12 ++++++++++++
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp    | 16 ++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
index ac25bdf..c7e3ff0 100644
--- a/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXSceneImport.cpp
@@ -156,7 +156,12 @@ bool FArchiveXML::LoadSceneNode(FCDObject* object, xmlNode* node)
 				}
 				else
 				{
-					FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, child->line);
+					// The node may be defined later in the document: this is retried once everything is loaded.
+					FCDSceneNodeInstanceData data;
+					data.parent = sceneNode;
+					data.targetId = TO_STRING(url.GetFragment());
+					data.line = child->line;
+					FArchiveXML::documentLinkDataMap[sceneNode->GetDocument()].sceneNodeInstances.push_back(data);
 				}
 			}
 			else
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 5fdc209..49a04f8 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -230,6 +230,17 @@ typedef fm::pvector<FCDAnimationChannel> FCDAnimationChannelList;
 
 #endif //_FAXSTRUCTURES_H_
 
+//
+// For FCDSceneNode: local <instance_node> elements that point to a node not yet loaded.
+//
+struct FCDSceneNodeInstanceData
+{
+	FCDSceneNode* parent;
+	fm::string targetId;
+	uint32 line;
+};
+typedef fm::vector<FCDSceneNodeInstanceData> FCDSceneNodeInstanceDataList;
+
 //
 // Per-document link data using in 2nd passing of loading.
 //
@@ -237,6 +248,7 @@ struct FCDocumentLinkData
 {
 	FCDEmitterInstanceDataMap emitterInstanceDataMap;
 	FCDTargetedEntityDataMap targetedEntityDataMap;
+	FCDSceneNodeInstanceDataList sceneNodeInstances;
 	FCDAnimationChannelDataMap animationChannelData;
 	FCDAnimatedDataMap animatedData;
 	FCDAnimationCurveDataMap animationCurveData;
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 7c09480..5bd5227 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -745,6 +745,22 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		status |= FArchiveXML::LinkController(theDocument->GetControllerLibrary()->GetEntity(i));
 	}
 
+	// Link the node instances that were found before the nodes they instantiate.
+	FCDSceneNodeInstanceDataList& nodeInstances = FArchiveXML::documentLinkDataMap[theDocument].sceneNodeInstances;
+	for (size_t i = 0; i < nodeInstances.size(); ++i)
+	{
+		FCDSceneNode* node = theDocument->FindSceneNode(nodeInstances[i].targetId);
+		if (node == NULL)
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_INST, nodeInstances[i].line);
+		}
+		else if (!nodeInstances[i].parent->AddChildNode(node))
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_CYCLE_DETECTED, nodeInstances[i].line);
+		}
+	}
+	nodeInstances.clear();
+
 	for (size_t i = 0; i < theDocument->GetVisualSceneLibrary()->GetEntityCount(); i++)
 	{
 		FCDSceneNode* node = theDocument->GetVisualSceneLibrary()->GetEntity(i);
-- 
2.43.0


From c9c97caee3a8155be9cb4e6b02f83bfff93fa0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 007/121] fix: a refused or cancelled import no longer counts
 as a document being loaded

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 5bd5227..caf81db 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -560,6 +560,7 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	if (!IsEquivalent(colladaNode->name, DAE_COLLADA_ELEMENT))
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_ELEMENT, colladaNode->line);
+		--FArchiveXML::loadedDocumentCount;
 		return status = false;
 	}
 
@@ -665,7 +666,11 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	size_t libraryNodeCount = orderedLibraryNodes.size();
 	for (size_t i = 0; i < libraryNodeCount; ++i)
 	{
-		if (FCollada::CancelLoading()) return false;
+		if (FCollada::CancelLoading())
+		{
+			--FArchiveXML::loadedDocumentCount;
+			return false;
+		}
 
 		xmlOrderedNode& n = orderedLibraryNodes[i];
 		switch (n.order)
-- 
2.43.0


From 4050f055f138fad8a8b2e88cd14ba71e3905ed51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 008/121] fix: write each interpolation of an animation curve
 once

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 45aeabf..b746d23 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -404,7 +404,8 @@ void FArchiveXML::WriteSourceFCDAnimationCurve(FCDAnimationCurve* animationCurve
 	// Export the data arrays.
 	xmlNode* sourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, parameter);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_;
+	interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
@@ -606,7 +607,8 @@ void FArchiveXML::WriteSourceFCDAnimationMultiCurve(FCDAnimationMultiCurve* anim
 	// Export the data arrays
 	xmlNode* inputSourceNode = AddSourceFloat(parentNode, baseId + "-input", inputs, "TIME");
 	AddSourceFloat(parentNode, baseId + "-output", outputs, animationMultiCurve->GetDimension(), parameters);
-	fm::vector<FUDaeInterpolation::Interpolation> interpolations_(interpolations.size());
+	fm::vector<FUDaeInterpolation::Interpolation> interpolations_;
+	interpolations_.reserve(interpolations.size());
 	for (auto it = interpolations.begin(); it < interpolations.end(); ++it)
 		interpolations_.push_back(static_cast<FUDaeInterpolation::Interpolation>(*it));
 	AddSourceInterpolation(parentNode, baseId + "-interpolations", interpolations_);
-- 
2.43.0


From 14edc93cc92e18f1e301aa571eb33f9e36813520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 009/121] fix: destroy the old values when a vector moves to a
 larger buffer

---
 FCollada/FMath/FMArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 41c8859..9f7af13 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -337,6 +337,7 @@ namespace fm
 							for(size_t i = 0; i < sized; ++i)
 							{
 								fm::Construct(newValues + i, *(heapBuffer + i));
+								(*(heapBuffer + i)).~T();
 							}
 						}
 					}
-- 
2.43.0


From 85bfc454e62a7ecd3c01be47814b5da5ec3a8617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 010/121] fix: track the objects of copied tracked lists and
 pointers

---
 FCollada/FUtils/FUTracker.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index 4fdc8f8..f834102 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -121,6 +121,13 @@ public:
 		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
 	}
 
+	/** Copy constructor.
+		@param _ptr The tracked pointer whose object should also be tracked by this pointer. */
+	FUTrackedPtr(const FUTrackedPtr& _ptr) : FUTracker(_ptr), ptr(_ptr.ptr)
+	{
+		if (ptr != NULL) FUTracker::TrackObject((FUTrackable*) ptr);
+	}
+
 	/** Destructor.
 		Stops the tracking of the pointer. */
 	~FUTrackedPtr()
@@ -334,14 +341,26 @@ public:
 	virtual bool TracksObject(const FUTrackable* object) const { return Parent::contains((ObjectClass*) object); }
 
 	/** Copy constructor. @param other The FUTrackedList to clone. */
-	FUTrackedList<ObjectClass>(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList(const FUTrackedList<ObjectClass>& other) : Parent(other), FUTracker(other)
+	{
+		for (iterator it = begin(); it != end(); ++it) FUTracker::TrackObject((FUTrackable*) (*it));
+	}
 
 	/** Clones a list of tracked objects.
 		This list will stop tracking all its current tracked objects
 		and will start tracking the objects within the other list.
 		@param other A second list of tracked objects.
 		@return This list. */
-	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other) = default;
+	FUTrackedList<ObjectClass>& operator=(const FUTrackedList<ObjectClass>& other)
+	{
+		if (this != &other)
+		{
+			clear();
+			Parent::operator=(other);
+			for (iterator it = begin(); it != end(); ++it) FUTracker::TrackObject((FUTrackable*) (*it));
+		}
+		return *this;
+	}
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-- 
2.43.0


From 00965b261c8a019aac563feef0df4ead95353d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 011/121] fix: let an object reference take over the object of
 another reference

---
 FCollada/FUtils/FUObject.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index 8f183bc..fc87d3f 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -198,8 +198,13 @@ public:
 		@return This reference. */
 	FUObjectRef<ObjectClass>& operator=(FUObjectRef<ObjectClass>& _ptr)
 	{
-		operator=(_ptr.ptr);
-		_ptr.ptr = NULL;
+		if (this != &_ptr)
+		{
+			ObjectClass* object = _ptr.ptr;
+			if (object != NULL) _ptr.DetachObject((FUObject*) object);
+			_ptr.ptr = NULL;
+			operator=(object);
+		}
 		return *this;
 	}
 
-- 
2.43.0


From 87ed772cf8af457a056150b9de155f7d0dee009e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 012/121] fix: keep the user's extra tree of an animation that
 was loaded

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 4cd4f3a..1aac840 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -39,8 +39,8 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 #ifdef DONT_DEFINE_THIS
 	FCDAnimation* anim = animationChannel->GetParent();
 	FCDExtra* extra = anim->GetExtra();
-	extra->SetTransientFlag(); // Dont save this, its wasted whatever it is.
 	FCDEType* type = extra->AddType("AnimTargets");
+	type->SetTransientFlag(); // Dont save this, its wasted whatever it is.
 	FCDETechnique* teq = type->AddTechnique("TEMP");
 	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetPointer));
 	teq->AddChildNode("pointer")->SetContent(TO_FSTRING(data.targetQualifier));
-- 
2.43.0


From 1607f028cbbc65caf3034adfc6e977bfb4410efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 013/121] fix: save the animations instantiated by an animation
 clip that was loaded

---
 FCollada/FCDocument/FCDAnimationClip.h             |  2 +-
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationClip.h b/FCollada/FCDocument/FCDAnimationClip.h
index 8910592..c4c40de 100644
--- a/FCollada/FCDocument/FCDAnimationClip.h
+++ b/FCollada/FCDocument/FCDAnimationClip.h
@@ -117,7 +117,7 @@ public:
     /** Retrieves the name of the animation at a given index.
         @param index The index of the animation.
         @return The name of the animation. */
-	inline fm::string GetAnimationName(size_t index) const { return names[index]; }
+	inline fm::string GetAnimationName(size_t index) const { return index < names.size() ? names[index] : fm::string(); }
 
     /** [INTERNAL] Adds an animation instance.
         @return The empty animation instance. */
diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index b746d23..b036357 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -228,6 +228,17 @@ xmlNode* FArchiveXML::WriteAnimationClip(FCDObject* object, xmlNode* parentNode)
 		AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, fm::string("#") + (*itA)->GetDaeId());
 	}
 
+	// Write out the animations that are instantiated explicitly, such as those read from a file.
+	for (size_t i = 0; i < animationClip->GetAnimationCount(); ++i)
+	{
+		const FCDAnimation* animation = animationClip->GetAnimation(i);
+		if (animation == NULL || animations.find(animation) != animations.end()) continue;
+		xmlNode* instanceNode = AddChild(clipNode, DAE_INSTANCE_ANIMATION_ELEMENT);
+		AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, fm::string("#") + animation->GetDaeId());
+		fm::string animationName = animationClip->GetAnimationName(i);
+		if (!animationName.empty()) AddAttribute(instanceNode, DAE_NAME_ATTRIBUTE, animationName);
+	}
+
 	FArchiveXML::WriteEntityExtra(animationClip, clipNode);
 	return clipNode;
 }
-- 
2.43.0


From 9ff71a24bb31f08250268c7f10bb4c8301edd1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 014/121] fix: report a missing animation driver when it is
 missing, not when it was found

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 337d22f..abb4307 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -98,7 +98,7 @@ bool FArchiveXML::LinkAnimation(FCDAnimation* animation)
 		FUAssert(it != FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData.end(), continue);
 		FCDAnimationChannelData& data = it->second;
 
-		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && channel->GetCurve(0)->HasDriver())
+		if (!data.driverPointer.empty() && channel->GetCurveCount() > 0 && !channel->GetCurve(0)->HasDriver())
 		{
 			status &= FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_ANIM_CURVE_DRIVER_MISSING);
 		}
-- 
2.43.0


From 5786dc8470d09c781fbe27115ab06079cea6049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 015/121] fix: find the controller that a morph controller
 deforms

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index abb4307..282e37c 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -548,7 +548,7 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 	{
 		fm::string targetId = SkipPound(data.targetId);
 		FCDEntity* baseTarget = morphController->GetDocument()->FindGeometry(targetId);
-		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(data.targetId);
+		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(targetId);
 		if (baseTarget == NULL)
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_MC_BASE_TARGET_MISSING, 0);
-- 
2.43.0


From 48871ae726e45c71d0c49c5dde2992e087abe26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 016/121] fix: remember which mesh a loaded convex hull belongs
 to

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 282e37c..5ace427 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -574,7 +574,9 @@ bool FArchiveXML::LinkGeometryMesh(FCDGeometryMesh* geometryMesh)
 		FCDGeometryMesh* origMesh = concaveGeom->GetMesh();
 		if (origMesh != NULL)
 		{
+			fm::string convexHullOf = geometryMesh->GetConvexHullOf();
 			origMesh->Clone(geometryMesh);
+			geometryMesh->SetConvexHullOf(convexHullOf); // overwritten by clone
 			geometryMesh->SetConvexify(geometryMesh != NULL);
 			geometryMesh->SetConvex(true); // may have been overwritten by clone
 		}
-- 
2.43.0


From 459326a38b174ae36a4e3669329bb598ceff3111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 017/121] fix: keep all the splines of a geometry when loading

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 79e1d5e..dfb0594 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -580,7 +580,8 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 		FUDaeSplineType::Type splineType = FUDaeSplineType::FromString(ReadNodeContentFull(typeNode));
 
 		// The types must be compatible
-		if (!geometrySpline->SetType(splineType))
+		bool sameType = geometrySpline->GetSplineCount() == 0 || geometrySpline->GetType() == splineType;
+		if (!sameType || (geometrySpline->GetSplineCount() == 0 && !geometrySpline->SetType(splineType)))
 		{
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VARYING_SPLINE_TYPE, splineNode->line);
 			return status;
-- 
2.43.0


From 905866c66ef98964e2f22c974907803232418069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 018/121] fix: write point sets without the vertex counts that
 the loader refuses

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 0817dba..7825ec9 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -169,7 +169,7 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	case FCDGeometryPolygons::LINE_STRIPS: hasHoles = true; polygonNodeType = DAE_LINESTRIPS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_FANS: hasHoles = true; polygonNodeType = DAE_TRIFANS_ELEMENT; break;
 	case FCDGeometryPolygons::TRIANGLE_STRIPS: hasHoles = true; polygonNodeType = DAE_TRISTRIPS_ELEMENT; break;
-	case FCDGeometryPolygons::POINTS: polygonNodeType = DAE_POINTS_ELEMENT; break;
+	case FCDGeometryPolygons::POINTS: hasHoles = true; polygonNodeType = DAE_POINTS_ELEMENT; break;
 	default: polygonNodeType = emptyCharString; FUFail(break); break;
 	}
 	xmlNode* polygonsNode = AddChild(parentNode, polygonNodeType);
-- 
2.43.0


From 2441ea5b67650616d54687ca8261c9bf100e8a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 019/121] fix: count the lines of all the line lists of a
 polygon set

---
 FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
index 7825ec9..4352c87 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryExport.cpp
@@ -299,7 +299,11 @@ xmlNode* FArchiveXML::WriteGeometryPolygons(FCDObject* object, xmlNode* parentNo
 	size_t primitiveCount = geometryPolygons->GetFaceCount();
 	if (geometryPolygons->GetPrimitiveType() == FCDGeometryPolygons::LINES && primitiveCount > 0)
 	{
-		primitiveCount = geometryPolygons->GetFaceVertexCount(0) / 2;
+		primitiveCount = 0;
+		for (size_t faceIndex = 0; faceIndex < faceCount; ++faceIndex)
+		{
+			primitiveCount += geometryPolygons->GetFaceVertexCount(faceIndex) / 2;
+		}
 	}
 	AddAttribute(polygonsNode, DAE_COUNT_ATTRIBUTE, primitiveCount);
 
-- 
2.43.0


From 37305ed443f5a4bb17a81ddccb6efe153fa6141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 020/121] fix: remove exactly the face and its holes from a
 polygon set

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 5e411a4..fd53ed9 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -107,7 +107,16 @@ void FCDGeometryPolygons::RemoveFace(size_t index)
 	// Remove the face and its holes
 	size_t holeBefore = GetHoleCountBefore(index);
 	size_t holeCount = GetHoleCount(index);
-	faceVertexCounts.erase(index + holeBefore, holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+	faceVertexCounts.erase(index + holeBefore, index + holeBefore + holeCount + 1); // +1 in order to remove the polygon as well as the holes.
+
+	// Remove the indices of these holes and move back the indices of the holes that follow.
+	size_t firstHole = index + holeBefore + 1;
+	for (size_t h = holeFaces.size(); h > 0; --h)
+	{
+		size_t hole = holeFaces[h - 1];
+		if (hole >= firstHole + holeCount) holeFaces[h - 1] = (uint32) (hole - holeCount - 1);
+		else if (hole >= firstHole) holeFaces.erase(holeFaces.begin() + (h - 1));
+	}
 
 	parent->Recalculate();
 	SetDirtyFlag();
-- 
2.43.0


From 1072367f34787a08bb40b4b515a4e0912a3bc909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 021/121] fix: hand the indices of a released source to another
 input, not to the same one

---
 FCollada/FCDocument/FCDGeometryPolygonsInput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
index 2e32322..cfe56ad 100644
--- a/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygonsInput.cpp
@@ -66,7 +66,7 @@ void FCDGeometryPolygonsInput::OnObjectReleased(FUTrackable* object)
 			for (size_t i = 0; i < inputCount; ++i)
 			{
 				FCDGeometryPolygonsInput* other = parent->GetInput(i);
-				if (other->offset == offset)
+				if (other != this && other->offset == offset)
 				{
 					// Move the shared list of indices to the other input.
 					other->indices = indices;
-- 
2.43.0


From cdf98c15f1f903f4c9f9eae63dca7f202554c790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 022/121] fix: save a curve whose driver is not a value of the
 file without the driver

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index b036357..11f2fc6 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -471,7 +471,12 @@ xmlNode* FArchiveXML::WriteSamplerFCDAnimationCurve(FCDAnimationCurve* animation
 	if (animationCurve->HasDriver())
 	{
 		FCDAnimatedDataMap::iterator it = FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.find(animationCurve->GetDriverPtr());
-		FUAssert(it != FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.end(),);
+		if (it == FArchiveXML::documentLinkDataMap[animationCurve->GetDriverPtr()->GetDocument()].animatedData.end())
+		{
+			// The driver is not a value of the file: there is no target to point at.
+			FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_ANIM_CURVE_DRIVER_MISSING);
+			return samplerNode;
+		}
 		FCDAnimatedData& data = it->second;
 
 		FUSStringBuilder builder(data.pointer);
-- 
2.43.0


From 0224e067deb5a395134648e82db1e03d819369f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 023/121] fix: save the linear texture filter

---
 FCollada/FUtils/FUDaeEnum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FUtils/FUDaeEnum.cpp b/FCollada/FUtils/FUDaeEnum.cpp
index 49fd60a..b423991 100644
--- a/FCollada/FUtils/FUDaeEnum.cpp
+++ b/FCollada/FUtils/FUDaeEnum.cpp
@@ -163,6 +163,7 @@ namespace FUDaeTextureFilterFunction
 		{
 		case NONE: return DAE_TEXTURE_FILTER_NONE;
 		case NEAREST: return DAE_TEXTURE_FILTER_NEAREST;
+		case LINEAR: return DAE_TEXTURE_FILTER_LINEAR;
 		case NEAREST_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_NEAR_MIP_NEAR;
 		case LINEAR_MIPMAP_NEAREST: return DAE_TEXTURE_FILTER_LIN_MIP_NEAR;
 		case NEAREST_MIPMAP_LINEAR: return DAE_TEXTURE_FILTER_NEAR_MIP_LIN;
-- 
2.43.0


From 191a9f8c72618ff10c0b146284dfdd697952d096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 024/121] fix: keep the images of all the init_from elements of
 a surface

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 84a26c5..3956ca8 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -468,16 +468,18 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 			effectParameterSurface->SetInitMethod(new FCDEffectParameterSurfaceInitFrom());
 
 		FCDEffectParameterSurfaceInitFrom* ptrInit = (FCDEffectParameterSurfaceInitFrom*)effectParameterSurface->GetInitMethod();
-		//StringList names;
-		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), effectParameterSurface->GetNames());
+		StringList names;
+		FUStringConversion::ToStringList(ReadNodeContentDirect(*it), names);
 
-		if (effectParameterSurface->GetNames().size() == 0 || effectParameterSurface->GetNames()[0].empty())
+		if (names.size() == 0 || names[0].empty())
 		{
-			effectParameterSurface->GetNames().clear();
+			names.clear();
 			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_EMPTY_INIT_FROM, surfaceNode->line);
 		}
 
-		if (effectParameterSurface->GetNames().size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
+		effectParameterSurface->GetNames().insert(effectParameterSurface->GetNames().end(), names.begin(), names.end());
+
+		if (names.size() == 1) //might be 1.4.1, so allow the attributes mip, slice, face
 		{
 			if (HasNodeProperty(*it, DAE_MIP_ATTRIBUTE))
 			{
-- 
2.43.0


From eeab59f5dcc28bb98e31b7128be6a373c84dcaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 025/121] fix: a surface without a size keeps the default size
 and viewport ratio

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 3956ca8..26afe1b 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -658,9 +658,9 @@ bool FArchiveXML::LoadEffectParameterSurface(FCDObject* object, xmlNode* paramet
 	}
 
 	xmlNode* sizeNode = FindChildByType(surfaceNode, DAE_SIZE_ELEMENT);
-	effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
+	if (sizeNode != NULL) effectParameterSurface->SetSize(FUStringConversion::ToVector3(ReadNodeContentDirect(sizeNode)));
 	xmlNode* viewportRatioNode = FindChildByType(surfaceNode, DAE_VIEWPORT_RATIO);
-	effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
+	if (viewportRatioNode != NULL) effectParameterSurface->SetViewportRatio(FUStringConversion::ToFloat(ReadNodeContentDirect(viewportRatioNode)));
 	xmlNode* mipLevelsNode = FindChildByType(surfaceNode, DAE_MIP_LEVELS);
 	effectParameterSurface->SetMipLevelCount((uint16) FUStringConversion::ToInt32(ReadNodeContentDirect(mipLevelsNode)));
 	xmlNode* mipmapGenerateNode = FindChildByType(surfaceNode, DAE_MIPMAP_GENERATE);
-- 
2.43.0


From 2756529f827320456eef04b3e49052617d6d50cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 026/121] fix: save that a surface generates its mip maps

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index a68ce53..eb1f160 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -475,6 +475,10 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 		xmlNode* mipmapLevelsNode = AddChild(surfaceNode, DAE_MIP_LEVELS);
 		AddContent(mipmapLevelsNode, FUStringConversion::ToString(effectParameterSurface->GetMipLevelCount()));
 	}
+	if (effectParameterSurface->IsGenerateMipMaps())
+	{
+		AddChild(surfaceNode, DAE_MIPMAP_GENERATE, "true");
+	}
 
 	return parameterNode;
 }
-- 
2.43.0


From 175da1f1a43fcc7f2109bd248ead81d2e17ab80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 027/121] fix: save an animated, referenced or textured
 specular level of one

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index eb1f160..2e556f4 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -938,7 +938,8 @@ xmlNode* FArchiveXML::WriteEffectStandard(FCDObject* object, xmlNode* parentNode
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAE_SHININESS_MATERIAL_PARAMETER, effectStandard->GetShininessParam(), FUDaeTextureChannel::SHININESS);
 			}
-			if (effectStandard->GetSpecularFactor() != 1.0f)
+			const FCDEffectParameterFloat* specularFactor = effectStandard->GetSpecularFactorParam();
+			if (specularFactor->GetValue() != 1.0f || specularFactor->IsReferencer() || specularFactor->GetValue().IsAnimated() || effectStandard->GetTextureCount(FUDaeTextureChannel::SPECULAR_LEVEL) > 0)
 			{
 				FArchiveXML::WriteFloatTextureParameter(effectStandard, techniqueNode, DAEMAX_SPECLEVEL_MATERIAL_PARAMETER, effectStandard->GetSpecularFactorParam(), FUDaeTextureChannel::SPECULAR_LEVEL);
 			}
-- 
2.43.0


From da621949f8415a517b4e00f29d0c7379b707efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 028/121] fix: parsing a string list replaces the previous
 words

---
 FCollada/FUtils/FUStringConversion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.cpp b/FCollada/FUtils/FUStringConversion.cpp
index 0613f0e..64bcb4a 100644
--- a/FCollada/FUtils/FUStringConversion.cpp
+++ b/FCollada/FUtils/FUStringConversion.cpp
@@ -117,7 +117,7 @@ void FUStringConversion::ToFStringList(const fstring& value, FStringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fstring(word, s - word);
 		else { array.push_back(fstring(word, s - word)); ++index; }
 
 		// Skip all white spaces
@@ -140,7 +140,7 @@ void FUStringConversion::ToStringList(const char* s, StringList& array)
 		// Find next white space
 		while ((c = *s) != 0 && c != ' ' && c != '\t' && c != '\r' && c != '\n') { ++s; }
 
-		if (index < array.size()) array[index++].append(word, s - word);
+		if (index < array.size()) array[index++] = fm::string(word, s - word);
 		else { array.push_back(fm::string(word, s - word)); ++index; }
 
 		// Skip all white spaces
-- 
2.43.0


From 036eeee3c489d82ade03b0ec957d1838d47492b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 029/121] fix: save the equation of a physics plane in the
 order it is read

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index b6b8444..a1920e4 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -130,7 +130,7 @@ xmlNode* FArchiveXML::WritePASPlane(FCDObject* object, xmlNode* node)
 
 	xmlNode* geomNode = AddChild(node, DAE_PLANE_ELEMENT);
 	FMVector4 equation;
-	equation.w = pASPlane->normal.x; equation.x = pASPlane->normal.y; equation.y = pASPlane->normal.z; equation.z = pASPlane->d;
+	equation.x = pASPlane->normal.x; equation.y = pASPlane->normal.y; equation.z = pASPlane->normal.z; equation.w = pASPlane->d;
 	fm::string s = FUStringConversion::ToString(equation);
 	AddChild(geomNode, DAE_EQUATION_ELEMENT, s);
 	return geomNode;
-- 
2.43.0


From 3139b12e1eb26f3befefb81b382c817ddb6fe77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 030/121] fix: save the material owned by a physics shape in
 one element

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index a1920e4..f5958cc 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -38,8 +38,7 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 
 	if (physicsShape->OwnsPhysicsMaterial() && physicsShape->GetPhysicsMaterial())
 	{
-		xmlNode* materialNode = AddChild(physicsShapeNode, DAE_PHYSICS_MATERIAL_ELEMENT);
-		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), materialNode);
+		FArchiveXML::LetWriteObject(physicsShape->GetPhysicsMaterial(), physicsShapeNode);
 	}
 	else if (physicsShape->GetInstanceMaterial())
 	{
-- 
2.43.0


From 199197d5af6aaaf42f0b169af6d8e81cae5b16fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 031/121] fix: load the springs of a rigid constraint from its
 common technique

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 0f88407..3627ffe 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -838,7 +838,8 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 
-	xmlNode* spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT);
+	xmlNode* spring = FindChildByType(techniqueNode, DAE_SPRING_ELEMENT);
+	if (spring == NULL) spring = FindChildByType(physicsRigidConstraintNode, DAE_SPRING_ELEMENT);
 	if (spring)
 	{
 		xmlNode* linearSpring = FindChildByType(spring, DAE_LINEAR_ELEMENT);
-- 
2.43.0


From 5929830497e91456a3f0886eaba54215dc5137b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 032/121] fix: keep the order of the transforms of a rigid
 constraint attachment

---
 .../FArchiveXML/FAXPhysicsImport.cpp          | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 3627ffe..1333197 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -720,19 +720,20 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 
 	physicsRigidConstraint->SetSubId(FUDaeParser::ReadNodeSid(physicsRigidConstraintNode));
 
-#define PARSE_TRANSFORM(node, className, nodeName, transforms) { \
-	xmlNodeList transformNodes; \
-	FindChildrenByType(node, nodeName, transformNodes); \
-	for (xmlNodeList::iterator itT = transformNodes.begin(); itT != transformNodes.end(); ++itT) \
+// The order of the transforms is significant.
+#define PARSE_TRANSFORMS(node, transforms) { \
+	for (xmlNode* child = (node != NULL) ? node->children : NULL; child != NULL; child = child->next) \
 	{ \
-		if (IsEquivalent((*itT)->name, nodeName)) { \
-			className* transform = new className(physicsRigidConstraint->GetDocument(), NULL); \
-			transforms.push_back(transform); \
-			status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), *itT); \
-			if (!status) { \
-				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, (*itT)->line);} \
-		} \
-	}  }
+		if (child->type != XML_ELEMENT_NODE) continue; \
+		FCDTransform* transform = NULL; \
+		if (IsEquivalent(child->name, DAE_ROTATE_ELEMENT)) transform = new FCDTRotation(physicsRigidConstraint->GetDocument(), NULL); \
+		else if (IsEquivalent(child->name, DAE_TRANSLATE_ELEMENT)) transform = new FCDTTranslation(physicsRigidConstraint->GetDocument(), NULL); \
+		if (transform == NULL) continue; \
+		transforms.push_back(transform); \
+		status = FArchiveXML::LoadSwitch(transform, &transform->GetObjectType(), child); \
+		if (!status) { \
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_NODE_TRANSFORM, child->line);} \
+	} }
 
 
 
@@ -753,8 +754,7 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 	// Parse the node's transforms: <rotate>, <translate>
-	PARSE_TRANSFORM(referenceBodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
-	PARSE_TRANSFORM(referenceBodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsRef())
+	PARSE_TRANSFORMS(referenceBodyNode, physicsRigidConstraint->GetTransformsRef())
 
 	// target body
 	xmlNode* bodyNode = FindChildByType(physicsRigidConstraintNode, DAE_ATTACHMENT_ELEMENT);
@@ -773,10 +773,9 @@ bool FArchiveXML::LoadPhysicsRigidConstraint(FCDObject* object, xmlNode* physics
 		}
 	}
 	// Parse the node's transforms: <rotate>, <scale>, <translate>
-	PARSE_TRANSFORM(bodyNode, FCDTRotation, DAE_ROTATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
-	PARSE_TRANSFORM(bodyNode, FCDTTranslation, DAE_TRANSLATE_ELEMENT, physicsRigidConstraint->GetTransformsTar())
+	PARSE_TRANSFORMS(bodyNode, physicsRigidConstraint->GetTransformsTar())
 
-#undef PARSE_TRANSFORM
+#undef PARSE_TRANSFORMS
 
 	//technique_common
 	xmlNode* techniqueNode = FindChildByType(physicsRigidConstraintNode, DAE_TECHNIQUE_COMMON_ELEMENT);
-- 
2.43.0


From 02b7f5fb46a6cc6234ab0ab06fb931ea68c8ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 033/121] fix: adding a force field instance without a force
 field no longer fails

---
 FCollada/FCDocument/FCDPhysicsModelInstance.cpp | 3 ++-
 FCollada/FCDocument/FCDPhysicsScene.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
index adf13a7..aeb3347 100644
--- a/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
+++ b/FCollada/FCDocument/FCDPhysicsModelInstance.cpp
@@ -55,7 +55,8 @@ FCDPhysicsRigidConstraintInstance* FCDPhysicsModelInstance::AddRigidConstraintIn
 
 FCDPhysicsForceFieldInstance* FCDPhysicsModelInstance::AddForceFieldInstance(FCDForceField* forceField)
 {
-	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, forceField);
+	FCDEntityInstance* instance = FCDEntityInstanceFactory::CreateInstance(GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity((FCDEntity*) forceField);
 	instances.push_back(instance);
 	SetNewChildFlag();
 	return (FCDPhysicsForceFieldInstance*)instance;
diff --git a/FCollada/FCDocument/FCDPhysicsScene.cpp b/FCollada/FCDocument/FCDPhysicsScene.cpp
index 15ddf3c..6ccc6c5 100644
--- a/FCollada/FCDocument/FCDPhysicsScene.cpp
+++ b/FCollada/FCDocument/FCDPhysicsScene.cpp
@@ -81,7 +81,8 @@ FCDPhysicsForceFieldInstance* FCDPhysicsScene::AddForceFieldInstance(FCDForceFie
 {
 	FCDPhysicsForceFieldInstance* instance = (FCDPhysicsForceFieldInstance*)
 			FCDEntityInstanceFactory::CreateInstance(
-					GetDocument(), (FCDSceneNode*) NULL, forceField);
+					GetDocument(), (FCDSceneNode*) NULL, FCDEntity::FORCE_FIELD);
+	instance->SetEntity((FCDEntity*) forceField);
 	forceFieldInstances.push_back(instance);
 	SetNewChildFlag();
 	return instance;
-- 
2.43.0


From 58d2ccb3bd141e36728d611b8edf5ba4fde73d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 034/121] fix: save the animation of the orientation of a rigid
 body's mass frame

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index f5958cc..b6f5d92 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -298,7 +298,8 @@ void FArchiveXML::WritePhysicsRigidBodyParameters(FCDPhysicsRigidBodyParameters*
 	xmlNode* massFrameNode = AddChild(techniqueNode, DAE_MASS_FRAME_ELEMENT);
 	FArchiveXML::AddPhysicsParameter(massFrameNode, DAE_TRANSLATE_ELEMENT, physicsRigidBodyParameters->GetMassFrameTranslate());
 	FMVector4 massFrameRotate(physicsRigidBodyParameters->GetMassFrameRotateAxis(), physicsRigidBodyParameters->GetMassFrameRotateAngle());
-	AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	xmlNode* massFrameRotateNode = AddChild(massFrameNode, DAE_ROTATE_ELEMENT, massFrameRotate);
+	FArchiveXML::WriteAnimatedValue(&physicsRigidBodyParameters->GetMassFrameOrientation(), massFrameRotateNode, DAE_ROTATE_ELEMENT);
 	if (physicsRigidBodyParameters->IsInertiaAccurate())
 	{
 		FArchiveXML::AddPhysicsParameter(techniqueNode, DAE_INERTIA_ELEMENT, physicsRigidBodyParameters->GetInertia());
-- 
2.43.0


From 416e89a51c6f3d343b078d54580ab4d6e96c91d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 035/121] fix: load the animations of the velocities of a rigid
 body instance

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index 46afd30..bdc1d05 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -325,6 +325,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	{
 		physicsRigidBodyInstance->SetAngularVelocity(FUStringConversion::ToVector3(
 				ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetAngularVelocity(), param);
 	}
 	else
 	{
@@ -335,6 +336,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 	if (param != NULL)
 	{
 		physicsRigidBodyInstance->SetVelocity(FUStringConversion::ToVector3(ReadNodeContentDirect(param)));
+		FArchiveXML::LoadAnimatable(&physicsRigidBodyInstance->GetVelocity(), param);
 	}
 	else
 	{
-- 
2.43.0


From c5fe8223a7367ff4453eb6a7fc6b85b9c8c6faef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 036/121] fix: save which rigid body is instantiated by its
 sub-id

---
 FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
index a342392..bea1da6 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceExport.cpp
@@ -251,8 +251,15 @@ xmlNode* FArchiveXML::WritePhysicsRigidBodyInstance(FCDObject* object, xmlNode*
 
 	xmlNode* instanceNode = FArchiveXML::WriteEntityInstance(physicsRigidBodyInstance, parentNode);
 
-	AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
-	AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetEntity()->GetDaeId());
+	if (physicsRigidBodyInstance->GetTargetNode() != NULL)
+	{
+		AddAttribute(instanceNode, DAE_TARGET_ATTRIBUTE, fm::string("#") + physicsRigidBodyInstance->GetTargetNode()->GetDaeId());
+	}
+	if (physicsRigidBodyInstance->GetRigidBody() != NULL)
+	{
+		// The bodies are written, and found at load, by their sub-id.
+		AddAttribute(instanceNode, DAE_BODY_ATTRIBUTE, physicsRigidBodyInstance->GetRigidBody()->GetSubId());
+	}
 
 	//inconsistency in the spec
 	RemoveAttribute(instanceNode, DAE_URL_ATTRIBUTE);
-- 
2.43.0


From fda33ec005f6d723e8cf03d159c99944bdbea45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 037/121] fix: exporting a force field or emitter instance does
 not need the import data of the animations

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 2 +-
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 1aac840..773028e 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -625,7 +625,7 @@ void FArchiveXML::FindAnimationChannels(FCDAnimation* animation, const fm::strin
 	for (size_t i = 0; i < animation->GetChannelCount(); ++i)
 	{
 		FCDAnimationChannelDataMap::iterator itChannelData = FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.find(animation->GetChannel(i));
-		FUAssert(itChannelData != FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.end(),);
+		if (itChannelData == FArchiveXML::documentLinkDataMap[animation->GetChannel(i)->GetDocument()].animationChannelData.end()) continue; // not read from a file.
 		FCDAnimationChannelData& channelData = itChannelData->second;
 
 		if (channelData.targetPointer == pointer)
diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index 5ace427..d1dbcea 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -68,7 +68,7 @@ bool FArchiveXML::LinkDriver(FCDAnimation* animation, FCDAnimated* animated, con
 bool FArchiveXML::LinkDriver(FCDAnimationChannel* animationChannel, FCDAnimated* animated, const fm::string& animatedTargetPointer)
 {
 	FCDAnimationChannelDataMap::iterator it = FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.find(animationChannel);
-	FUAssert(it != FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.end(),);
+	if (it == FArchiveXML::documentLinkDataMap[animationChannel->GetDocument()].animationChannelData.end()) return false; // not read from a file.
 	FCDAnimationChannelData& data = it->second;
 
 	bool driver = !data.driverPointer.empty();
-- 
2.43.0


From 28c8085aa88c473c55a7f96ce393589f61840624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 038/121] fix: instances of physics models are loaded in the
 order of the file

---
 FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp | 8 ++++----
 FColladaPlugins/FArchiveXML/FAXStructures.h      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
index 1333197..defb2f1 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsImport.cpp
@@ -233,12 +233,12 @@ bool FArchiveXML::AttachModelInstancesFCDPhysicsModel(FCDPhysicsModel* physicsMo
 	FUAssert(it != FArchiveXML::documentLinkDataMap[physicsModel->GetDocument()].physicsModelDataMap.end(),);
 	FCDPhysicsModelData& data = it->second;
 
-	for (ModelInstanceNameNodeMap::iterator it = data.modelInstancesMap.begin(); it != data.modelInstancesMap.end(); ++it)
+	for (ModelInstanceNodeList::iterator it = data.modelInstanceNodes.begin(); it != data.modelInstanceNodes.end(); ++it)
 	{
 		FCDPhysicsModelInstance* instance = physicsModel->AddPhysicsModelInstance();
-		status &= FArchiveXML::LoadPhysicsModelInstance(instance, it->first);
+		status &= FArchiveXML::LoadPhysicsModelInstance(instance, *it);
 	}
-	data.modelInstancesMap.clear();
+	data.modelInstanceNodes.clear();
 	return status;
 }
 
@@ -669,7 +669,7 @@ bool FArchiveXML::LoadPhysicsModel(FCDObject* object, xmlNode* physicsModelNode)
 		}
 		else if (IsEquivalent(child->name, DAE_INSTANCE_PHYSICS_MODEL_ELEMENT))
 		{
-			data.modelInstancesMap.insert(child, ReadNodeUrl(child));
+			data.modelInstanceNodes.push_back(child);
 		}
 	}
 
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 49a04f8..5dc3054 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -173,10 +173,10 @@ typedef fm::map<FCDAnimation*, FCDAnimationData> FCDAnimationDataMap;
 //
 // For FCDPhysicsModel
 //
-typedef fm::map<xmlNode*, FUUri> ModelInstanceNameNodeMap;
+typedef fm::vector<xmlNode*> ModelInstanceNodeList;
 struct FCDPhysicsModelData
 {
-	ModelInstanceNameNodeMap modelInstancesMap;
+	ModelInstanceNodeList modelInstanceNodes; // in the order of the file.
 };
 typedef fm::map<FCDPhysicsModel*, FCDPhysicsModelData> FCDPhysicsModelDataMap;
 
-- 
2.43.0


From 50b6104c8651fbbf167891756b769a16557854f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 039/121] fix: reading or writing a part of the data asked for
 is a failure

---
 FCollada/FUtils/FUFile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index 38aca84..ddbaa75 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -107,14 +107,14 @@ size_t FUFile::GetLength()
 bool FUFile::Read(void* buffer, size_t length)
 {
 	FUAssert(IsOpen(), return 0);
-	return (fread(buffer, 1, length, filePtr) > 0);
+	return fread(buffer, 1, length, filePtr) == length;
 }
 
 // Write out some data to a file
 bool FUFile::Write(const void* buffer, size_t length)
 {
 	FUAssert(IsOpen(), return 0);
-	return (fwrite(buffer, 1, length, filePtr) > 0);
+	return fwrite(buffer, 1, length, filePtr) == length;
 }
 
 // Flush/close the file stream
-- 
2.43.0


From 0fbe2b57a6e3a7a5553c641a6cf36c0fac02f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:21 +0000
Subject: [PATCH 040/121] fix: the length of a file that cannot be positioned
 is zero

---
 FCollada/FUtils/FUFile.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index ddbaa75..bc61f97 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -94,13 +94,13 @@ size_t FUFile::GetLength()
 {
 	FUAssert(IsOpen(), return 0);
 
-	size_t currentPosition = (size_t) ftell(filePtr);
-	if (fseek(filePtr, 0, SEEK_END) != 0) return 0;
+	long currentPosition = ftell(filePtr);
+	if (currentPosition < 0 || fseek(filePtr, 0, SEEK_END) != 0) return 0;
 
-	size_t length = (size_t) ftell(filePtr);
-	if (fseek(filePtr, (long) currentPosition, SEEK_SET) != 0) return 0;
+	long length = ftell(filePtr);
+	if (length < 0 || fseek(filePtr, currentPosition, SEEK_SET) != 0) return 0;
 
-	return length;
+	return (size_t) length;
 }
 
 // Reads in a piece of the file into the given buffer
-- 
2.43.0


From 98673888dec145505e112b41d737290738e160be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 041/121] fix: writing a XML document fails when its last data
 cannot be written

---
 FCollada/FUtils/FUFile.cpp        | 7 ++++---
 FCollada/FUtils/FUFile.h          | 5 +++--
 FCollada/FUtils/FUXmlDocument.cpp | 3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index bc61f97..3d937e6 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -124,9 +124,10 @@ void FUFile::Flush()
 	fflush(filePtr);
 }
 
-void FUFile::Close()
+bool FUFile::Close()
 {
-	FUAssert(IsOpen(),);
-	fclose(filePtr);
+	FUAssert(IsOpen(), return false);
+	bool success = fclose(filePtr) == 0;
 	filePtr = NULL;
+	return success;
 }
diff --git a/FCollada/FUtils/FUFile.h b/FCollada/FUtils/FUFile.h
index 48db8ef..830ff9b 100644
--- a/FCollada/FUtils/FUFile.h
+++ b/FCollada/FUtils/FUFile.h
@@ -94,8 +94,9 @@ public:
 		This function will do nothing if the file was not opened in WRITE mode. */
 	void Flush();
 
-	/** Closes and detaches the file. */
-	void Close();
+	/** Closes and detaches the file.
+		@return Whether all the data written to the file was accepted. */
+	bool Close();
 };
 
 #endif // _FU_FILE_H_
diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 0d88491..a9ff8cb 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -115,5 +115,6 @@ bool FUXmlDocument::Write(const char* encoding)
 	FUFile file(filename, FUFile::WRITE);
 	if (!file.IsOpen()) return false;
 	xmlDocument->encoding = xmlStrdup((const xmlChar*) encoding);
-	return xmlDocFormatDump(file.GetHandle(), xmlDocument, 1) > 0;
+	bool success = xmlDocFormatDump(file.GetHandle(), xmlDocument, 1) > 0;
+	return file.Close() && success;
 }
-- 
2.43.0


From 0d72601fa5ac762b8c6fbe9344822e8aee5b99d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 042/121] fix: saving a document answers false when the file
 cannot be written

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index caf81db..b7fb89a 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -464,6 +464,7 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
 			// Create the XML document and write it out to the given filename
 			if (!daeDocument.Write())
 			{
+				status = false;
 				FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_WRITE_FILE, rootNode->line);
 			}
 			else
-- 
2.43.0


From 1f70ee1bc963824109bbdd426fb87ea64ec8ee0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:42 +0000
Subject: [PATCH 043/121] fix: do not parse a XML file that could not be read
 to its end

---
 FCollada/FUtils/FUXmlDocument.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index a9ff8cb..208a658 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -34,11 +34,11 @@ FUXmlDocument::FUXmlDocument(FUFileManager* manager, const fchar* _filename, boo
 		{
 			size_t fileLength = file->GetLength();
 			uint8* fileData = new uint8[fileLength];
-			file->Read(fileData, fileLength);
+			bool complete = file->Read(fileData, fileLength);
 			file->Close();
 
 			// Open the given XML file.
-			xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
+			if (complete) xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
 			SAFE_DELETE_ARRAY(fileData);
 		}
 		SAFE_DELETE(file);
-- 
2.43.0


From 28801ac458e3ea28518a3743bd3747934bea7cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 044/121] fix: loading a referenced document keeps the link
 data of the document being loaded

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index b7fb89a..b72a947 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -400,8 +400,9 @@ bool FArchiveXML::ImportFile(const fchar* filePath, FCDocument* fcdocument)
     		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless another document is still being loaded.
+		if (FArchiveXML::loadedDocumentCount == 0)
+			FArchiveXML::ClearIntermediateData();
 	}
 	_FCATCH_ALL
 	{
@@ -434,8 +435,9 @@ bool FArchiveXML::ImportFileFromMemory(const fchar* filePath, FCDocument* fcdocu
 			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
 		}
 
-		// Clean-up the XML reader
-		FArchiveXML::ClearIntermediateData();
+		// Clean-up the XML reader, unless another document is still being loaded.
+		if (FArchiveXML::loadedDocumentCount == 0)
+			FArchiveXML::ClearIntermediateData();
     }
     _FCATCH_ALL
     {
-- 
2.43.0


From f288b464c9fcafd3326bb0e60d3f874d0528f93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:22 +0000
Subject: [PATCH 045/121] fix: a load whose last parts fail or that is
 cancelled late answers false

---
 FColladaPlugins/FArchiveXML/FAXImportLinking.cpp |  3 +--
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp      | 11 +++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
index d1dbcea..03084b9 100644
--- a/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXImportLinking.cpp
@@ -551,8 +551,7 @@ bool FArchiveXML::LinkMorphController(FCDMorphController* morphController)
 		if (baseTarget == NULL) baseTarget = morphController->GetDocument()->FindController(targetId);
 		if (baseTarget == NULL)
 		{
-			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_MC_BASE_TARGET_MISSING, 0);
-			return false;
+			return !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_MC_BASE_TARGET_MISSING, 0);
 		}
 
 		morphController->SetBaseTarget(baseTarget);
diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index b72a947..21bfdb1 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -707,6 +707,13 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 	}
 
+	// The last library may not be complete.
+	if (FCollada::CancelLoading())
+	{
+		--FArchiveXML::loadedDocumentCount;
+		return false;
+	}
+
 	// Read in the <scene> element
 	if (sceneNode != NULL)
 	{
@@ -750,7 +757,7 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	}
 	for (size_t i = 0; i < theDocument->GetControllerLibrary()->GetEntityCount(); ++i)
 	{
-		status |= FArchiveXML::LinkController(theDocument->GetControllerLibrary()->GetEntity(i));
+		status &= FArchiveXML::LinkController(theDocument->GetControllerLibrary()->GetEntity(i));
 	}
 
 	// Link the node instances that were found before the nodes they instantiate.
@@ -772,7 +779,7 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 	for (size_t i = 0; i < theDocument->GetVisualSceneLibrary()->GetEntityCount(); i++)
 	{
 		FCDSceneNode* node = theDocument->GetVisualSceneLibrary()->GetEntity(i);
-		status |= FArchiveXML::LinkSceneNode(node);
+		status &= FArchiveXML::LinkSceneNode(node);
 	}
 
 	// Link the convex meshes with their point clouds (convex_hull_of)
-- 
2.43.0


From 8575449b21828468529a83eee5ac7e294398d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:02 +0000
Subject: [PATCH 046/121] fix: trackers may be removed while an object tells
 them of its release

---
 FCollada/FUtils/FUTracker.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUTracker.cpp b/FCollada/FUtils/FUTracker.cpp
index c082696..017ad4c 100644
--- a/FCollada/FUtils/FUTracker.cpp
+++ b/FCollada/FUtils/FUTracker.cpp
@@ -27,11 +27,13 @@ FUTrackable::~FUTrackable()
 
 void FUTrackable::Detach()
 {
-	for (FUTrackerList::iterator itT = trackers.begin(); itT != trackers.end(); ++itT)
+	// The notified trackers may remove themselves or other trackers from this list.
+	while (!trackers.empty())
 	{
-		(*itT)->OnObjectReleased(this);
+		FUTracker* tracker = trackers.front();
+		tracker->OnObjectReleased(this);
+		trackers.erase(tracker);
 	}
-	trackers.clear();
 
 	// Also detach from the owner.
 	FUObject::Detach();
-- 
2.43.0


From 555a1c8efc9b32e8144b8550b0f80160ff7499ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 047/121] fix: a map can be copied and assigned to itself

---
 FCollada/FMath/FMTree.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/FCollada/FMath/FMTree.h b/FCollada/FMath/FMTree.h
index b55dbeb..3c7e289 100644
--- a/FCollada/FMath/FMTree.h
+++ b/FCollada/FMath/FMTree.h
@@ -368,6 +368,15 @@ namespace fm
 			fm::Construct(root);
 		}
 
+		/** Copy constructor. Clones another tree into this one.
+			@param copy The tree to clone. */
+		tree(const tree<KEY,DATA>& copy) : root(NULL), sized(0)
+		{
+			root = (node*) fm::Allocate(sizeof(node));
+			fm::Construct(root);
+			operator=(copy);
+		}
+
 		/** Destructor. */
 		~tree()
 		{
@@ -623,6 +632,7 @@ namespace fm
 			@return This tree, cloned. */
 		inline tree<KEY,DATA>& operator= (const tree<KEY,DATA>& copy)
 		{
+			if (this == &copy) return (*this);
 			clear();
 
 			// Function based on the iterator..
-- 
2.43.0


From 80a5bc19d9ca3df7a320354df3d4928b0f1b74d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 048/121] fix: events can be changed and triggered while they
 are delivered

---
 FCollada/FUtils/FUEvent.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 27e5983..97e1514 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -18,7 +18,10 @@
 #ifndef _FU_EVENT_H_
 #define _FU_EVENT_H_
 
+#include <algorithm>
 #include <functional>
+#include <memory>
+#include <tuple>
 #include <vector>
 
 /**
@@ -29,7 +32,8 @@ template <typename... Args>
 class FUEvent
 {
 private:
-	std::vector<std::tuple<void*, std::function<void(Args...)>>> handlers;
+	using Handler = std::tuple<void*, std::function<void(Args...)>>;
+	std::vector<std::shared_ptr<Handler>> handlers;
 public:
 
 	/** Constructor. */
@@ -46,7 +50,7 @@ public:
 		@param _function The static function to callback. */
 	void InsertHandler(void* object, std::function<void(Args...)> func)
 	{
-		handlers.emplace_back(std::tuple(object,func));
+		handlers.push_back(std::make_shared<Handler>(object, func));
 	}
 
 	/** Releases and unregisters a callback that handles the event.
@@ -56,18 +60,24 @@ public:
 	void ReleaseHandler(void* object)
 	{
 		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](auto t){ return std::get<0>(t) == object; }));
+					[object](const auto& t){ return std::get<0>(*t) == object; }), handlers.end());
 	}
 
 	/**
 	 * Triggers the event.
 	 * All the registered callbacks will be called, in reverse-order
-	 * of their registration.
+	 * of their registration. The callbacks may register and unregister
+	 * callbacks: the unregistered callbacks are not called anymore and the
+	 * new callbacks are called at the next trigger.
 	 */
 	void operator()(Args... args)
 	{
-		for (std::size_t i = handlers.size(); i > 0; --i)
-			(std::get<1>(handlers[i - 1]))(args...);
+		const std::vector<std::shared_ptr<Handler>> current(handlers);
+		for (std::size_t i = current.size(); i > 0; --i)
+		{
+			if (std::find(handlers.begin(), handlers.end(), current[i - 1]) != handlers.end())
+				(std::get<1>(*current[i - 1]))(args...);
+		}
 	}
 };
 
-- 
2.43.0


From 57de2738e1d8cb0c16fe446ff9b058f37e6207d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 049/121] fix: error callbacks can report errors and change the
 callbacks

---
 FCollada/FUtils/FUError.cpp | 8 ++++----
 FCollada/FUtils/FUError.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/FCollada/FUtils/FUError.cpp b/FCollada/FUtils/FUError.cpp
index b4c45ed..edb8670 100644
--- a/FCollada/FUtils/FUError.cpp
+++ b/FCollada/FUtils/FUError.cpp
@@ -12,7 +12,7 @@
 //
 // FUError
 //
-std::mutex FUError::errorMutex;
+std::recursive_mutex FUError::errorMutex;
 
 FUEvent<FUError::Level, uint32, uint32> FUError::onErrorEvent;
 FUEvent<FUError::Level, uint32, uint32> FUError::onWarningEvent;
@@ -31,7 +31,7 @@ FUError::~FUError()
 
 bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArgument)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -47,7 +47,7 @@ bool FUError::Error(FUError::Level errorLevel, uint32 errorCode, uint32 errorArg
 void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 		std::function<void(FUError::Level, uint32, uint32)> callback)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
@@ -60,7 +60,7 @@ void FUError::AddErrorCallback(FUError::Level errorLevel, void* object,
 
 void FUError::RemoveErrorCallback(FUError::Level errorLevel, void* object)
 {
-	const std::lock_guard<std::mutex> lock(errorMutex);
+	const std::lock_guard<std::recursive_mutex> lock(errorMutex);
 
 	switch (errorLevel)
 	{
diff --git a/FCollada/FUtils/FUError.h b/FCollada/FUtils/FUError.h
index 3025d11..b59e6c9 100644
--- a/FCollada/FUtils/FUError.h
+++ b/FCollada/FUtils/FUError.h
@@ -238,7 +238,7 @@ public:
 	};
 
 private:
-	static std::mutex errorMutex;
+	static std::recursive_mutex errorMutex; // callbacks may report errors and change the callbacks
 
 	static FUEvent<FUError::Level, uint32, uint32> onErrorEvent;
 	static FUEvent<FUError::Level, uint32, uint32> onWarningEvent;
-- 
2.43.0


From 103e30a4e7582ef92218f4bde04b2ec506db7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 050/121] fix: the error log writes messages as text, not as
 formats

---
 FCollada/FUtils/FUErrorLog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUErrorLog.cpp b/FCollada/FUtils/FUErrorLog.cpp
index 45433e1..b9a16db 100644
--- a/FCollada/FUtils/FUErrorLog.cpp
+++ b/FCollada/FUtils/FUErrorLog.cpp
@@ -73,5 +73,5 @@ void FUErrorLog::OnErrorCallback(FUError::Level level, uint32 errorCode, uint32
 #endif // WIN32
 		newLine.append('\n');
 	}
-	logFile->WriteLine(newLine.ToCharPtr());
+	logFile->WriteLine("%s", newLine.ToCharPtr());
 }
-- 
2.43.0


From be295b2288df3bfde6a00f6d88361ea1a726dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:02 +0000
Subject: [PATCH 051/121] fix: log lines are written whole however long they
 are

---
 FCollada/FUtils/FULogFile.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/FCollada/FUtils/FULogFile.cpp b/FCollada/FUtils/FULogFile.cpp
index c190da1..07989ae 100644
--- a/FCollada/FUtils/FULogFile.cpp
+++ b/FCollada/FUtils/FULogFile.cpp
@@ -44,14 +44,19 @@ void FULogFile::WriteLine(const char* message, ...)
 
 void FULogFile::WriteLineV(const char* message, va_list& vars)
 {
-	size_t len = strlen(message);
-	char* buffer = new char[len + 1024];
-	vsnprintf(buffer, len + 1024, message, vars);
-	buffer[len + 1023] = 0;
+	// Measure the message first: it may be longer than any fixed buffer.
+	va_list measure;
+	va_copy(measure, vars);
+	int length = vsnprintf(NULL, 0, message, measure);
+	va_end(measure);
+	if (length < 0) return;
+
+	char* buffer = new char[(size_t) length + 1];
+	vsnprintf(buffer, (size_t) length + 1, message, vars);
 
 	if (file->IsOpen())
 	{
-		file->Write(buffer, strlen(buffer));
+		file->Write(buffer, (size_t) length);
 		file->Write("\n\r", 2);
 		file->Flush();
 	}
-- 
2.43.0


From 3675df0ea8e2ca7efc596977a3dc3333093cfe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 052/121] fix: releasing an event handler releases one handler
 and keeps the others

---
 FCollada/FUtils/FUEvent.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUEvent.h b/FCollada/FUtils/FUEvent.h
index 97e1514..a6d40a8 100644
--- a/FCollada/FUtils/FUEvent.h
+++ b/FCollada/FUtils/FUEvent.h
@@ -54,13 +54,15 @@ public:
 	}
 
 	/** Releases and unregisters a callback that handles the event.
+		When the handle registered many callbacks, the oldest is released.
 		@param handle The handle of the function container.
 			This pointer will be NULL for static functions.
 		@param function The address of the function callback to unregister. */
 	void ReleaseHandler(void* object)
 	{
-		handlers.erase(std::remove_if(handlers.begin(), handlers.end(),
-					[object](const auto& t){ return std::get<0>(*t) == object; }), handlers.end());
+		auto found = std::find_if(handlers.begin(), handlers.end(),
+					[object](const auto& t){ return std::get<0>(*t) == object; });
+		if (found != handlers.end()) handlers.erase(found);
 	}
 
 	/**
-- 
2.43.0


From 92b86672d1bc8ac2b4ebb51e4898671829567f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 053/121] fix: closing a file reports data lost while flushing

---
 FCollada/FUtils/FUFile.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUFile.cpp b/FCollada/FUtils/FUFile.cpp
index 3d937e6..70558f8 100644
--- a/FCollada/FUtils/FUFile.cpp
+++ b/FCollada/FUtils/FUFile.cpp
@@ -127,7 +127,9 @@ void FUFile::Flush()
 bool FUFile::Close()
 {
 	FUAssert(IsOpen(), return false);
-	bool success = fclose(filePtr) == 0;
+	// The error state is kept from writes that failed while flushing.
+	bool success = ferror(filePtr) == 0;
+	success = fclose(filePtr) == 0 && success;
 	filePtr = NULL;
 	return success;
 }
-- 
2.43.0


From 6ece5e7aac80d70e3df92d888ca6c043091947a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 054/121] fix: a unique string that differs in leading zeros or
 long numbers is not taken for used

---
 FCollada/FUtils/FUUniqueStringMap.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/FCollada/FUtils/FUUniqueStringMap.cpp b/FCollada/FUtils/FUUniqueStringMap.cpp
index bab61e7..60ae5b2 100644
--- a/FCollada/FUtils/FUUniqueStringMap.cpp
+++ b/FCollada/FUtils/FUUniqueStringMap.cpp
@@ -13,14 +13,14 @@
 template <class CH>
 inline void SplitString(const fm::stringT<CH>& str, fm::stringT<CH>& prefix, uint32& suffix)
 {
-	// Remove the suffix from the string.
-	size_t len = str.length();
+	// Remove the suffix from the string. Limit the suffix to the digits that are written back
+	// the same way: different strings must never give the same prefix and suffix.
+	static const size_t maximumDigits = 9;
+	size_t len = str.length(), start = len;
+	while (start > 0 && len - start < maximumDigits && str[start-1] >= '0' && str[start-1] <= '9') --start;
+	while (start + 1 < len && str[start] == '0') ++start;
 	prefix = str;
-	while (len > 0 && prefix[len-1] >= '0' && prefix[len-1] <= '9')
-	{
-		prefix.erase(len-1, len);
-		--len;
-	}
+	if (start < len) prefix.erase(start, len);
 
 	// Parse the suffix: if no suffix is present, use -1.
 	size_t offset = prefix.length();
@@ -51,14 +51,17 @@ void FUUniqueStringMapT<CH>::insert(fm::stringT<CH>& wantedStr)
 		{
 			// Get the second last suffix, if it exists.
 			--itN;
-			if (itN == itV->second.end()) suffix = 2;
-			suffix = itN->first + 1;
+			suffix = (itN == itV->second.end()) ? 1 : itN->first + 1;
 		}
 
 		// Recreate the user's string to use this unique suffix.
 		FUStringBuilderT<CH> builder(prefix);
 		builder.append(suffix);
 		wantedStr = builder.ToString();
+
+		// The new string may be split differently.
+		insert(wantedStr);
+		return;
 	}
 
 	// Insert our suffix in the known list.
-- 
2.43.0


From 6e949b36d1983caa80f3b8f801cd6771dbe770dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 055/121] fix: cloning keeps the id of the original and does
 not make duplicate ids

---
 FCollada/FCDocument/FCDObjectWithId.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDObjectWithId.cpp b/FCollada/FCDocument/FCDObjectWithId.cpp
index e23c7db..093595a 100644
--- a/FCollada/FCDocument/FCDObjectWithId.cpp
+++ b/FCollada/FCDocument/FCDObjectWithId.cpp
@@ -33,8 +33,10 @@ FCDObjectWithId::~FCDObjectWithId()
 
 void FCDObjectWithId::Clone(FCDObjectWithId* clone) const
 {
+	// The clone gives up its own id and gets a unique id when it is asked for one.
+	if (clone == this) return;
+	clone->RemoveDaeId();
 	clone->daeId = daeId;
-	const_cast<FCDObjectWithId*>(this)->RemoveDaeId();
 }
 
 const fm::string& FCDObjectWithId::GetDaeId() const
-- 
2.43.0


From 6c9cd48e060a1d47bd3405c98bf5f12f9e612fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 056/121] fix: a released scene is not saved as an instance
 without a target, an unavailable one keeps its reference

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 21bfdb1..ae3562f 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -894,19 +894,20 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 		if (theDocument->GetPhysicsSceneInstanceCount() > 0)
 		{
 			// Write out the <instance_physics_scene>
-			if (sceneNode == NULL) sceneNode = AddChild(colladaNode, DAE_SCENE_ELEMENT);
 			for (size_t i = 0; i < theDocument->GetPhysicsSceneInstanceCount(); ++i)
 			{
 				FCDEntityReference* reference = theDocument->GetPhysicsSceneInstanceReference(i);
 				const FUUri& uri = reference->GetUri();
+				if (uri.GetFragment().empty()) continue; // The physics scene was released.
 				fstring uriString = theDocument->GetFileManager()->CleanUri(uri);
+				if (sceneNode == NULL) sceneNode = AddChild(colladaNode, DAE_SCENE_ELEMENT);
 				xmlNode* instanceVisualSceneNode = AddChild(sceneNode, DAE_INSTANCE_PHYSICS_SCENE_ELEMENT);
 				AddAttribute(instanceVisualSceneNode, DAE_URL_ATTRIBUTE, uriString);
 			}
 		}
-		if (theDocument->GetVisualSceneInstance() != NULL)
+		if (!theDocument->GetVisualSceneInstanceReference()->GetUri().GetFragment().empty())
 		{
-			// Write out the <instance_visual_scene>
+			// Write out the <instance_visual_scene>, even when the document that contains it is not available.
 			if (sceneNode == NULL) sceneNode = AddChild(colladaNode, DAE_SCENE_ELEMENT);
 			xmlNode* instanceVisualSceneNode = AddChild(sceneNode, DAE_INSTANCE_VSCENE_ELEMENT);
 			const FUUri& uri = theDocument->GetVisualSceneInstanceReference()->GetUri();
-- 
2.43.0


From e17b112eefd738eb9399a5726baf7e2e0fbd8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 057/121] fix: the sub-identifiers of instances differ from
 those of the transforms of their node

---
 FCollada/FCDocument/FCDSceneNode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FCollada/FCDocument/FCDSceneNode.cpp b/FCollada/FCDocument/FCDSceneNode.cpp
index fa6a8c6..9e2f93b 100644
--- a/FCollada/FCDocument/FCDSceneNode.cpp
+++ b/FCollada/FCDocument/FCDSceneNode.cpp
@@ -275,6 +275,14 @@ void FCDSceneNode::CleanSubId()
 {
 	FUSUniqueStringMap myStringMap;
 
+	// The sub ids of the transforms are in the same scope.
+	size_t transformCount = transforms.size();
+	for (size_t t = 0; t < transformCount; ++t)
+	{
+		const fm::string& transformSubId = transforms[t]->GetSubId();
+		if (!transformSubId.empty()) myStringMap.insert(transformSubId);
+	}
+
 	size_t instanceCount = instances.size();
 	for (size_t i = 0; i < instanceCount; ++i)
 	{
-- 
2.43.0


From db1d5701bffe8a0e6b4113cedf713b564086f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 058/121] fix: linear pre-infinity continues the slope of the
 first keys

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index ad8c072..c350d04 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -329,7 +329,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 		switch (preInfinity)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
-		case FUDaeInfinity::LINEAR: return outputStart + inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
+		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
 		case FUDaeInfinity::CYCLE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; break; }
 		case FUDaeInfinity::CYCLE_RELATIVE: { float cycleCount = ceilf(inputDifference / inputSpan); input += cycleCount * inputSpan; outputOffset -= cycleCount * outputSpan; break; }
 		case FUDaeInfinity::OSCILLATE: { float cycleCount = ceilf(inputDifference / (2.0f * inputSpan)); input += cycleCount * 2.0f * inputSpan; input = inputEnd - fabsf(input - inputEnd); break; }
-- 
2.43.0


From de764bd3233dbdb782fae1d193594819e81a34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 059/121] fix: TCB intervals are evaluated from their own start
 key

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index c350d04..060ca20 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -454,7 +454,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			const FCDAnimationKey* nextKey = (it + 1) < keys.end() ? (*(it + 1)) : NULL;
 			ComputeTCBTangent(startKey, endKey, nextKey, tkey2->tension, tkey2->continuity, tkey2->bias, endTangent, tempTangent);
 			cy = endKey->output + endTangent.y; //Assuming the tangent is GOING from the point.
-			cx = endKey->output + endTangent.x;
+			cx = endKey->input + endTangent.x;
 		}
 		else if (endKey->interpolation == FUDaeInterpolation::BEZIER) {
 			FCDAnimationKeyBezier* tkey2 = (FCDAnimationKeyBezier*) endKey;
@@ -462,7 +462,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 			cy = endTangent.y;
 			cx = endTangent.x;
 		}
-		float t = (input - inputStart) / inputInterval;
+		float t = (input - startKey->input) / inputInterval;
 		by = startKey->output - startTangent.y; //Assuming the tangent is GOING from the point.
 		bx = startKey->input - startTangent.x;
 
-- 
2.43.0


From 6ee65cc9f6d2f72c32c6473d141c9304d5ab9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 060/121] fix: collapsing a multi-curve reads and writes its
 own Bezier keys

---
 FCollada/FCDocument/FCDAnimationCurveTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurveTools.cpp b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
index 3a5a08d..a12499a 100644
--- a/FCollada/FCDocument/FCDAnimationCurveTools.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurveTools.cpp
@@ -233,8 +233,8 @@ namespace FCDAnimationCurveTools
 
 			if (outKeys[i]->interpolation == FUDaeInterpolation::BEZIER)
 			{
-				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys + i;
-				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys + i;
+				FCDAnimationMKeyBezier* inBKey = (FCDAnimationMKeyBezier*) inKeys[i];
+				FCDAnimationKeyBezier* outBKey = (FCDAnimationKeyBezier*) outKeys[i];
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->inTangent[j].v;
 				outBKey->inTangent = FMVector2(inBKey->inTangent[0].u, (*collapse)(buffer, (uint32) dimension));
 				for (uint32 j = 0; j < dimension; ++j) buffer[j] = inBKey->outTangent[j].v;
-- 
2.43.0


From fa256ddabac130f5361f5965859e211d7981b616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:27 +0000
Subject: [PATCH 061/121] fix: evaluating outside of the keys stays within the
 keys

---
 FCollada/FCDocument/FCDAnimationCurve.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationCurve.cpp b/FCollada/FCDocument/FCDAnimationCurve.cpp
index 060ca20..a6254d1 100644
--- a/FCollada/FCDocument/FCDAnimationCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationCurve.cpp
@@ -326,7 +326,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 	if (input < inputStart)
 	{
 		float inputDifference = inputStart - input;
-		switch (preInfinity)
+		switch (keys[1]->input > inputStart || (inputSpan > 0.0f && preInfinity != FUDaeInfinity::LINEAR) ? preInfinity : FUDaeInfinity::CONSTANT)
 		{
 		case FUDaeInfinity::CONSTANT: return outputStart;
 		case FUDaeInfinity::LINEAR: return outputStart - inputDifference * (keys[1]->output - outputStart) / (keys[1]->input - inputStart);
@@ -341,7 +341,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 	else if (input >= inputEnd)
 	{
 		float inputDifference = input - inputEnd;
-		switch (postInfinity)
+		switch (keys[keys.size() - 2]->input < inputEnd || (inputSpan > 0.0f && postInfinity != FUDaeInfinity::LINEAR) ? postInfinity : FUDaeInfinity::CONSTANT)
 		{
 		case FUDaeInfinity::CONSTANT: return outputEnd;
 		case FUDaeInfinity::LINEAR: return outputEnd + inputDifference * (keys[keys.size() - 2]->output - outputEnd) / (keys[keys.size() - 2]->input - inputEnd);
@@ -352,6 +352,9 @@ float FCDAnimationCurve::Evaluate(float input) const
 		}
 	}
 
+	// Rounding may have left the wrapped input just outside of the keys.
+	input = FMath::Clamp(input, inputStart, inputEnd);
+
 	// Find the current interval
 	FCDAnimationKeyList::const_iterator it, start = keys.begin(), terminate = keys.end();
 	while (terminate - start > 3)
@@ -373,6 +376,7 @@ float FCDAnimationCurve::Evaluate(float input) const
 	const FCDAnimationKey* endKey = *it;
 	float inputInterval = endKey->input - startKey->input;
 	float outputInterval = endKey->output - startKey->output;
+	if (inputInterval <= 0.0f) return outputOffset + endKey->output;
 
 	// Interpolate the output.
 	// Similar code is found in FCDAnimationMultiCurve.cpp. If you update this, update the other one too.
-- 
2.43.0


From d633951ceae2124ea1bbec4c8cbb16e7fc889d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 062/121] fix: multi-dimensional Bezier curves evaluate like
 one-dimensional ones

---
 FCollada/FCDocument/FCDAnimationMultiCurve.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
index 513a714..c62a3ac 100644
--- a/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
+++ b/FCollada/FCDocument/FCDAnimationMultiCurve.cpp
@@ -141,17 +141,22 @@ void FCDAnimationMultiCurve::Evaluate(float input, float* output) const
 				{
 					FMVector2 inTangent;
 					if (endKey->interpolation == FUDaeInterpolation::BEZIER) inTangent = ((FCDAnimationMKeyBezier*) endKey)->inTangent[i];
-					else inTangent = FMVector2(endKey->input, 0.0f);
+					else inTangent = FMVector2(endKey->input - inputInterval / 3.0f, endKey->output[i]);
 
 					float t = (input - startKey->input) / inputInterval;
 					if (is2DEvaluation) t = FindT(startKey->input, bkey1->outTangent[i].x, inTangent.x, endKey->input, input, t);
 					float b = bkey1->outTangent[i].v;
 					float c = inTangent.v;
 					float ti = 1.0f - t;
-					float br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
-					float cr = inputInterval / (endKey->input - inTangent.u);
-					br = FMath::Clamp(br, 0.01f, 100.0f);
-					cr = FMath::Clamp(cr, 0.01f, 100.0f);
+					float br = 3.0f;
+					float cr = 3.0f;
+					if (!is2DEvaluation)
+					{
+						br = inputInterval / (bkey1->outTangent[i].u - startKey->input);
+						cr = inputInterval / (endKey->input - inTangent.u);
+						br = FMath::Clamp(br, 0.01f, 100.0f);
+						cr = FMath::Clamp(cr, 0.01f, 100.0f);
+					}
 
 					output[i] = startKey->output[i] * ti * ti * ti + br* b * ti * ti * t + cr * c * ti * t * t + endKey->output[i] * t * t * t;
 				}
-- 
2.43.0


From b6b880258cec78b7ebfd1dfee2ef2e95b7619871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 063/121] fix: LoadDocument answers nothing when the load
 failed

---
 FCollada/FCollada.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 895d5b9..94511ca 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -123,7 +123,7 @@ namespace FCollada
 	{
 		// This function is deprecated.
 		FCDocument* document = FCollada::NewTopDocument();
-		if (!LoadDocumentFromFile(document, filename)) document->Release();
+		if (!LoadDocumentFromFile(document, filename)) SAFE_RELEASE(document);
 		return document;
 	}
 
-- 
2.43.0


From bb460f6bd3b897b25417812bf818c0dfbf5237b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 064/121] fix: documents reached through several references are
 listed

---
 FCollada/FCollada.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCollada.cpp b/FCollada/FCollada.cpp
index 94511ca..79101b7 100644
--- a/FCollada/FCollada.cpp
+++ b/FCollada/FCollada.cpp
@@ -86,7 +86,8 @@ namespace FCollada
 	{
 		documents.clear();
 		documents.insert(documents.end(), topDocuments.begin(), topDocuments.end());
-		for (size_t index = 0; index < topDocuments.size(); ++index)
+		// The list grows while it is processed: the targets may have targets of their own.
+		for (size_t index = 0; index < documents.size(); ++index)
 		{
 			FCDocument* document = documents[index];
 
-- 
2.43.0


From 053d8291cdb370e1a29ddfc7b40a364972bd008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 065/121] fix: setting the URI of an entity reference forgets
 its old entity

---
 FCollada/FCDocument/FCDEntityReference.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/FCollada/FCDocument/FCDEntityReference.cpp b/FCollada/FCDocument/FCDEntityReference.cpp
index 3582ad2..df168e6 100644
--- a/FCollada/FCDocument/FCDEntityReference.cpp
+++ b/FCollada/FCDocument/FCDEntityReference.cpp
@@ -65,6 +65,13 @@ const FCDEntity* FCDEntityReference::GetEntity() const
 
 void FCDEntityReference::SetUri(const FUUri& uri)
 {
+	// The previously referenced entity is not the target of this reference anymore.
+	if (entity != NULL)
+	{
+		UntrackObject(entity);
+		entity = NULL;
+	}
+
 	entityId = TO_STRING(uri.GetFragment());
     entityId = FCDObjectWithId::CleanId(entityId);
 	FCDPlaceHolder* documentPlaceHolder = NULL;
-- 
2.43.0


From 245a19f415d7633e76d2ad9fa574cd75995ed533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 066/121] fix: an external reference binds to a document that
 is already open

---
 FCollada/FCDocument/FCDPlaceHolder.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/FCollada/FCDocument/FCDPlaceHolder.cpp b/FCollada/FCDocument/FCDPlaceHolder.cpp
index 4fe5d60..8f6e01e 100644
--- a/FCollada/FCDocument/FCDPlaceHolder.cpp
+++ b/FCollada/FCDocument/FCDPlaceHolder.cpp
@@ -66,20 +66,20 @@ void FCDPlaceHolder::LoadTarget(FCDocument* newTarget)
 	{
 		if (newTarget == NULL)
 		{
-			newTarget = new FCDocument();
-			FUUri uri(GetDocument()->GetFileManager()->GetCurrentUri().MakeAbsolute(fileUrl));
-			fstring filename = uri.GetAbsolutePath();
-
-#ifdef _DEBUG
-			// Check for circular dependencies.
+			// The document may already be open: never load it a second time.
 			FCDocumentList documents;
 			FCollada::GetAllDocuments(documents);
-			for (FCDocument** it = documents.begin(); it != documents.end(); ++it)
+			for (FCDocument** it = documents.begin(); it != documents.end() && newTarget == NULL; ++it)
 			{
-				// If the following asset triggers, you are wrongly forcing XRefs to load during archiving ?
-				FUAssert(!IsEquivalent((*it)->GetFileUrl(), fileUrl),);
+				if (IsEquivalent((*it)->GetFileUrl(), fileUrl)) newTarget = (*it);
 			}
-#endif // _DEBUG
+		}
+
+		if (newTarget == NULL)
+		{
+			newTarget = new FCDocument();
+			FUUri uri(GetDocument()->GetFileManager()->GetCurrentUri().MakeAbsolute(fileUrl));
+			fstring filename = uri.GetAbsolutePath();
 
 			// Now, we have to copy over our callback schemes from our document to the new
 			// one (to ensure that the new document can handle the scheme we was loaded under)
@@ -89,7 +89,7 @@ void FCDPlaceHolder::LoadTarget(FCDocument* newTarget)
 			bool loadStatus = FCollada::LoadDocumentFromFile(newTarget, filename.c_str());
 			if (!loadStatus)
 			{
-				SAFE_DELETE(newTarget);
+				SAFE_RELEASE(newTarget);
 			}
 		}
 
-- 
2.43.0


From 89acb8d40da112cdbd6f20861510d1e2fa61fa90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:43 +0000
Subject: [PATCH 067/121] fix: a material without an effect instance loads
 without reading through NULL

---
 FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
index 26afe1b..f50d4a4 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialImport.cpp
@@ -51,6 +51,7 @@ bool FArchiveXML::LoadMaterial(FCDObject* object, xmlNode* materialNode)
 	if (effectNode == NULL)
 	{
 		FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_MISSING_ELEMENT, materialNode->line);
+		return status;
 	}
 
 	FUUri url = ReadNodeUrl(effectNode);
-- 
2.43.0


From 4c3ccc7f62f71f73945448aade6c026644836829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 068/121] fix: a material keeps the reference to an effect that
 is not loaded

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 2e556f4..7eddceb 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -36,9 +36,10 @@ xmlNode* FArchiveXML::WriteMaterial(FCDObject* object, xmlNode* parentNode)
 
 	// The <instance_effect> element is required in COLLADA 1.4
 	xmlNode* instanceEffectNode = AddChild(materialNode, DAE_INSTANCE_EFFECT_ELEMENT);
-	if (material->GetEffect() != NULL)
+	// Do not look for the effect itself: it may be within an external document that should not be loaded to write this one.
+	const FUUri uri = material->GetEffectReference()->GetUri();
+	if (!uri.GetFragment().empty())
 	{
-		const FUUri& uri = material->GetEffectReference()->GetUri();
 		fstring uriString = material->GetDocument()->GetFileManager()->CleanUri(uri);
 		AddAttribute(instanceEffectNode, DAE_URL_ATTRIBUTE, uriString);
 
-- 
2.43.0


From 453da35580a9c6582eb68ea1af10d3bd6d3615db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:15 +0000
Subject: [PATCH 069/121] fix: unloading the target of a place holder may
 release the place holder

---
 FCollada/FCDocument/FCDPlaceHolder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPlaceHolder.cpp b/FCollada/FCDocument/FCDPlaceHolder.cpp
index 8f6e01e..03d985f 100644
--- a/FCollada/FCDocument/FCDPlaceHolder.cpp
+++ b/FCollada/FCDocument/FCDPlaceHolder.cpp
@@ -110,8 +110,11 @@ void FCDPlaceHolder::LoadTarget(FCDocument* newTarget)
 
 void FCDPlaceHolder::UnloadTarget()
 {
-	SAFE_RELEASE(target);
 	SetNewChildFlag();
+
+	// The target may hold the last reference to the document of this place holder: nothing may be touched after its release.
+	FCDocument* oldTarget = target;
+	if (oldTarget != NULL) oldTarget->Release();
 }
 
 void FCDPlaceHolder::OnObjectReleased(FUTrackable* object)
-- 
2.43.0


From d5185a78000a1d5880af777d7cd0edb87ea30008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:42 +0000
Subject: [PATCH 070/121] fix: SetCurrentTime can be called by applications,
 and on documents that reference each other

---
 FCollada/FCDocument/FCDocument.cpp | 25 ++++++++++++++++---------
 FCollada/FCDocument/FCDocument.h   |  2 +-
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/FCollada/FCDocument/FCDocument.cpp b/FCollada/FCDocument/FCDocument.cpp
index c67e4f7..1bb5f61 100644
--- a/FCollada/FCDocument/FCDocument.cpp
+++ b/FCollada/FCDocument/FCDocument.cpp
@@ -356,17 +356,24 @@ void FCDocument::SetFileUrl(const fstring& filename)
 
 void FCDocument::SetCurrentTime(float time)
 {
-	for (FCDAnimatedSet::iterator itA = animatedValues.begin(); itA != animatedValues.end(); ++itA)
+	// We must evaluate all our child documents as well! Each only once: they may reference each other.
+	FCDocumentList documents;
+	documents.push_back(this);
+	for (size_t d = 0; d < documents.size(); ++d)
 	{
-		FCDAnimated* animated = (*itA).first;
-		animated->Evaluate(time);
-	}
+		FCDocument* document = documents[d];
+		for (FCDAnimatedSet::iterator itA = document->animatedValues.begin(); itA != document->animatedValues.end(); ++itA)
+		{
+			FCDAnimated* animated = (*itA).first;
+			animated->Evaluate(time);
+		}
 
-	// We must evaluate all our child documents as well!
-	for (size_t i = 0; i < externalReferenceManager->GetPlaceHolderCount(); i++)
-	{
-		FCDPlaceHolder* placeHolder = externalReferenceManager->GetPlaceHolder(i);
-		if (placeHolder->IsTargetLoaded()) placeHolder->GetTarget()->SetCurrentTime(time);
+		FCDExternalReferenceManager* xrefManager = document->GetExternalReferenceManager();
+		for (size_t i = 0; i < xrefManager->GetPlaceHolderCount(); i++)
+		{
+			FCDocument* target = xrefManager->GetPlaceHolder(i)->GetTarget(false);
+			if (target != NULL && !documents.contains(target)) documents.push_back(target);
+		}
 	}
 }
 
diff --git a/FCollada/FCDocument/FCDocument.h b/FCollada/FCDocument/FCDocument.h
index 97149ff..25b4f88 100644
--- a/FCollada/FCDocument/FCDocument.h
+++ b/FCollada/FCDocument/FCDocument.h
@@ -261,7 +261,7 @@ public:
 
 	/** Evaluate the animation objects at the given time
 		@param time The time to evaluate the objects at */
-	inline void SetCurrentTime(float time);
+	void SetCurrentTime(float time);
 
 	/** Retrieves the list of entity layers.
 		@return The list of entity layers. */
-- 
2.43.0


From 15e1bf0a42ab8ba4bbe6fc7825efc43f2b70690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 071/121] fix: saving merged curves does not keep their list of
 qualifiers

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 11f2fc6..5be9f64 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -111,6 +111,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		FArchiveXML::WriteSamplerFCDAnimationMultiCurve(multiCurve, parentNode, baseId);
 		FArchiveXML::WriteChannelFCDAnimationMultiCurve(multiCurve, parentNode, baseId, data.targetPointer);
 		SAFE_RELEASE(multiCurve);
+		SAFE_DELETE_ARRAY(qualifiers);
 	}
 	else
 	{
-- 
2.43.0


From 4516f6991a67f1bcd54804e83d8f0074fd70dbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 072/121] fix: the default extra type comes back when it was
 released

---
 FCollada/FCDocument/FCDExtra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDExtra.h b/FCollada/FCDocument/FCDExtra.h
index cfe671a..3f1914d 100644
--- a/FCollada/FCDocument/FCDExtra.h
+++ b/FCollada/FCDocument/FCDExtra.h
@@ -75,7 +75,7 @@ public:
 		The default extra type has an empty typename and is always created by default.
 		The default extra type will NOT be exported if it is empty.
 		@return The default extra type. */
-	inline FCDEType* GetDefaultType() { return const_cast<FCDEType*>(const_cast<const FCDExtra*>(this)->GetDefaultType()); }
+	inline FCDEType* GetDefaultType() { return AddType(""); }
 	inline const FCDEType* GetDefaultType() const { return FindType(""); }  /**< See above. */
 
 	/** Retrieves a specific type contained by this extra tree.
-- 
2.43.0


From b71d7ac546769abebd89ffb608adccbe3e739deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 073/121] fix: a physics shape forgets its material instance
 when that is released, and clones it

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 2 +-
 FCollada/FCDocument/FCDPhysicsShape.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index ad60a08..3021179 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -128,7 +128,7 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 	if (instanceMaterialRef != NULL)
 	{
 		clone->instanceMaterialRef = FCDEntityInstanceFactory::CreateInstance(clone->GetDocument(), NULL, FCDEntity::PHYSICS_MATERIAL);
-		instanceMaterialRef->Clone(instanceMaterialRef);
+		instanceMaterialRef->Clone(clone->instanceMaterialRef);
 	}
 	if (physicsMaterial != NULL)
 	{
diff --git a/FCollada/FCDocument/FCDPhysicsShape.h b/FCollada/FCDocument/FCDPhysicsShape.h
index 2a1e980..76f7a8a 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.h
+++ b/FCollada/FCDocument/FCDPhysicsShape.h
@@ -60,7 +60,7 @@ private:
 	float* mass;
 	float* density;
 	FCDTransformContainer transforms;
-	FCDEntityInstance* instanceMaterialRef;
+	FUTrackedPtr<FCDEntityInstance> instanceMaterialRef;
 
 	bool isDensityMoreAccurate;
 
-- 
2.43.0


From 6703238fe5ba065631725df3af31ac12edcde031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 074/121] fix: polygons whose source was released can be cloned
 and looked up

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 4 +++-
 FCollada/FCDocument/FCDPhysicsShape.cpp     | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index fd53ed9..16a7a14 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -249,7 +249,7 @@ FCDGeometryPolygonsInput* FCDGeometryPolygons::FindInput(const fm::string& sourc
 	for (size_t i = 0; i < inputCount; ++i)
 	{
 		FCDGeometryPolygonsInput* input = inputs[i];
-		if (input->GetSource()->GetDaeId() == s) return input;
+		if (input->GetSource() != NULL && input->GetSource()->GetDaeId() == s) return input;
 	}
 	return NULL;
 }
@@ -313,6 +313,8 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	clone->inputs.reserve(inputCount);
 	for (size_t i = 0; i < inputCount; ++i)
 	{
+		if (inputs[i]->GetSource() == NULL) continue; // The source was released.
+
 		// Find the cloned source that correspond to the original input.
 		FCDGeometrySource* cloneSource = NULL;
 		FCDGeometrySourceCloneMap::const_iterator it = cloneMap.find(inputs[i]->GetSource());
diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 3021179..45cbf93 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -211,6 +211,7 @@ float FCDPhysicsShape::CalculateVolume() const
 			{
 				const FCDGeometryPolygons* polygons = mesh->GetPolygons(i);
 				const FCDGeometryPolygonsInput* positionInput = polygons->FindInput(FUDaeGeometryInput::POSITION);
+				if (positionInput == NULL) continue; // The position source was released.
 				const FCDGeometrySource* positionSource = positionInput->GetSource();
 				uint32 positionStride = positionSource->GetStride();
 				FUAssert(positionStride == 3, continue;);
-- 
2.43.0


From b2a2e4275296e392836eefff4cbc86fa00dbe42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 075/121] fix: reserving less than the content of a container
 does not drop the objects it owns or tracks

---
 FCollada/FUtils/FUObject.h  | 2 +-
 FCollada/FUtils/FUTracker.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUObject.h b/FCollada/FUtils/FUObject.h
index fc87d3f..4bd5d09 100644
--- a/FCollada/FUtils/FUObject.h
+++ b/FCollada/FUtils/FUObject.h
@@ -469,7 +469,7 @@ inline void erase(size_t index) { erase(begin() + index); }
 	/** Pre-caches the wanted number of pointers.
 		Use this function to avoid many memory re-allocations.
 		@param count The wanted number of pre-cached pointers. */
-	inline void reserve(size_t count) { Parent::reserve(count); }
+	inline void reserve(size_t count) { if (count > size()) Parent::reserve(count); }
 
 	/** Retrieves whether this container owns a given object.
 		@param value An object.
diff --git a/FCollada/FUtils/FUTracker.h b/FCollada/FUtils/FUTracker.h
index f834102..5a9838b 100644
--- a/FCollada/FUtils/FUTracker.h
+++ b/FCollada/FUtils/FUTracker.h
@@ -364,7 +364,7 @@ public:
 
 	inline bool empty() const { return Parent::empty(); } /**< Inherited from pvector. */
 	inline size_t size() const { return Parent::size(); } /**< Inherited from pvector. */
-	void reserve(size_t count) { Parent::reserve(count); } /**< Inherited from pvector. */
+	void reserve(size_t count) { if (count > size()) Parent::reserve(count); } /**< Inherited from pvector. */
 	inline bool contains(const ObjectClass* value) const { return Parent::contains(value); } /**< Inherited from pvector. */
 
 	/** Releases a value contained within a list.
-- 
2.43.0


From 4b2387297f2ecedafd11b6e4389b6c220681c2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 076/121] fix: the volume of a physics shape whose geometry is
 missing

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 45cbf93..fd3d59b 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -195,6 +195,7 @@ float FCDPhysicsShape::CalculateVolume() const
 	if (IsGeometryInstance())
 	{
 		FCDGeometry* geom = ((FCDGeometry*)geometry->GetEntity());
+		if (geom == NULL) return 1.0f; // missing geometry
 		if (geom->IsMesh())
 		{
 			FUBoundingBox boundary;
-- 
2.43.0


From d9b7c89d133d270fc0a9038a4b685f0ce95d5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 077/121] fix: a surface whose images were released is saved
 without reading through NULL

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 7eddceb..2fb2282 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -306,7 +306,11 @@ xmlNode* FArchiveXML::WriteEffectParameterSurface(FCDObject* object, xmlNode* pa
 	xmlNode* surfaceNode = AddChild(parameterNode, DAE_FXCMN_SURFACE_ELEMENT);
 	AddAttribute(surfaceNode, DAE_TYPE_ATTRIBUTE, effectParameterSurface->GetSurfaceType());
 
-	if (effectParameterSurface->GetInitMethod() != NULL)
+	// Most methods need images to initialize the surface from: those may have been released.
+	FCDEffectParameterSurfaceInit* initMethod = effectParameterSurface->GetInitMethod();
+	bool needsImage = initMethod != NULL && initMethod->GetInitType() != FCDEffectParameterSurfaceInitFactory::AS_NULL
+		&& initMethod->GetInitType() != FCDEffectParameterSurfaceInitFactory::AS_TARGET;
+	if (initMethod != NULL && (!needsImage || effectParameterSurface->GetImageCount() > 0))
 	{
 		switch (effectParameterSurface->GetInitMethod()->GetInitType())
 		{
-- 
2.43.0


From 3fdede041d965b52dab4fbe493eaf642070710ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 078/121] fix: a polygon list in a mesh without positions is
 refused without reading through NULL

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index dfb0594..532037b 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -401,8 +401,8 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 			// Count the total number of face-vertices expected, to pre-buffer the index lists
 			// The absolute maximum possible is the number of vertices (That is, a face
 			// that includes every vertex)
-			// We can assume all these ptrs are valid, otherwise we wouldnt get here.
-			size_t nVertices = geometryPolygons->GetParent()->GetPositionSource()->GetValueCount();
+			const FCDGeometrySource* positions = geometryPolygons->GetParent()->GetPositionSource();
+			size_t nVertices = positions != NULL ? positions->GetValueCount() : 0; // The position source may be missing.
 			expectedVertexCount = 0;
 			for (size_t i = 0; i < vCountCount; ++i)
 			{
-- 
2.43.0


From 35aa29a890f9f6eb5c0b1c0036d1b41a690abd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:43 +0000
Subject: [PATCH 079/121] fix: instances of a physics model that is missing are
 loaded without reading through NULL

---
 FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
index bdc1d05..a944710 100644
--- a/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXInstanceImport.cpp
@@ -343,7 +343,7 @@ bool FArchiveXML::LoadPhysicsRigidBodyInstance(FCDObject* object, xmlNode* insta
 		physicsRigidBodyInstance->SetVelocity(FMVector3::Zero);
 	}
 
-	FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBodyInstance->GetParameters(), techniqueNode, body->GetParameters());
+	FArchiveXML::LoadPhysicsRigidBodyParameters(physicsRigidBodyInstance->GetParameters(), techniqueNode, body != NULL ? body->GetParameters() : NULL);
 
 	physicsRigidBodyInstance->SetDirtyFlag();
 	return status;
@@ -359,10 +359,11 @@ bool FArchiveXML::LoadPhysicsRigidConstraintInstance(FCDObject* object, xmlNode*
 	// Check for the expected instantiation node type
 	if (!IsEquivalent(instanceNode->name, DAE_INSTANCE_RIGID_CONSTRAINT_ELEMENT)
 		|| physicsRigidConstraintInstance->GetModelParentInstance() == NULL
-		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity() == NULL)
+		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity() == NULL
+		|| physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity()->GetType() != FCDEntity::PHYSICS_MODEL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_UNKNOWN_ELEMENT, instanceNode->line);
-		status = false;
+		return false;
 	}
 
 	FCDPhysicsModel* model = (FCDPhysicsModel*) physicsRigidConstraintInstance->GetModelParentInstance()->GetEntity();
-- 
2.43.0


From b93b2fd6e709a174641347eaf01c2f0bb1c6d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:44 +0000
Subject: [PATCH 080/121] fix: a file manager made while the current folder is
 gone has a root path

---
 FCollada/FUtils/FUFileManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FCollada/FUtils/FUFileManager.cpp b/FCollada/FUtils/FUFileManager.cpp
index 3e3955b..ad0979b 100644
--- a/FCollada/FUtils/FUFileManager.cpp
+++ b/FCollada/FUtils/FUFileManager.cpp
@@ -107,6 +107,11 @@ FUFileManager::FUFileManager()
 		}
 		pathStack.push_back(TO_FSTRING((const char*) fullPath));
 	}
+	else
+	{
+		// The current folder may not exist anymore: there must always be a root path.
+		pathStack.push_back(FUUri(FC("/")));
+	}
 #endif // __PPU__
 
 	forceAbsolute = false;
-- 
2.43.0


From 248530a78a637a0ad2c8a8c3a00877bc790c8046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 081/121] fix: plug-ins found in the plug-in folder have one
 owner only

---
 FCollada/FColladaPlugin.cpp | 2 ++
 FCollada/FColladaPlugin.h   | 7 +++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/FCollada/FColladaPlugin.cpp b/FCollada/FColladaPlugin.cpp
index 55747ed..4cdfc75 100644
--- a/FCollada/FColladaPlugin.cpp
+++ b/FCollada/FColladaPlugin.cpp
@@ -70,6 +70,7 @@ bool FColladaPluginManager::RegisterPlugin(FUPlugin* plugin)
 	{
 		if (plugin->HasType(FCPArchive::GetClassType()))
 		{
+			registeredPlugins.push_back(plugin);
 			archivePlugins.push_back((FCPArchive*) plugin);
 			return true;
 		}
@@ -79,6 +80,7 @@ bool FColladaPluginManager::RegisterPlugin(FUPlugin* plugin)
 			const char* profileName = extraPlugin->GetProfileName();
 			if (profileName != NULL && *profileName != 0)
 			{
+				registeredPlugins.push_back(plugin);
 				extraTechniquePlugins.push_back(extraPlugin);
 				return true;
 			}
diff --git a/FCollada/FColladaPlugin.h b/FCollada/FColladaPlugin.h
index c9fc88c..ce73e5c 100644
--- a/FCollada/FColladaPlugin.h
+++ b/FCollada/FColladaPlugin.h
@@ -194,12 +194,15 @@ class FCOLLADA_EXPORT FColladaPluginManager : public FUObject
 private:
 	DeclareObjectType(FColladaPluginManager, FColladaPluginManager)
 
-	typedef FUObjectContainer<FCPExtraTechnique> FCPExtraList;
-	typedef FUObjectContainer<FCPArchive> FCPArchiveList;
+	typedef FUTrackedList<FCPExtraTechnique> FCPExtraList;
+	typedef FUTrackedList<FCPArchive> FCPArchiveList;
 
 	FCPExtraList extraTechniquePlugins;
 	FCPArchiveList archivePlugins;
 
+	// The plug-ins that were registered manually. The loader owns the other ones.
+	FUObjectContainer<FUPlugin> registeredPlugins;
+
 	FUPluginManager* loader;
 
 public:
-- 
2.43.0


From 4a1f938011038848cf5901377afb7c1329a995e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 082/121] fix: a program folder that has no name is not read
 before its start

---
 FCollada/FUtils/FUPluginManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUPluginManager.cpp b/FCollada/FUtils/FUPluginManager.cpp
index ca63ebc..efa9ffa 100644
--- a/FCollada/FUtils/FUPluginManager.cpp
+++ b/FCollada/FUtils/FUPluginManager.cpp
@@ -57,7 +57,7 @@ void FUPluginManager::LoadPluginsInFolderName(const fstring& folderName, const f
 {
 	// Append the wanted extension for the plugins.
 	FUStringBuilder pluginFolder(folderName);
-	fchar lastChar = folderName[pluginFolder.length() - 1];
+	fchar lastChar = !folderName.empty() ? folderName[folderName.length() - 1] : (fchar) 0;
 	if (lastChar != '\\' && lastChar != '/') pluginFolder.append((fchar) '/');
 	pluginFolder.append(FC("Plugins/"));
 	pluginFolderName = pluginFolder.ToString();
-- 
2.43.0


From 07e1248914eaa73d9addd89f904cb20018fcae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 083/121] fix: a library that holds no plug-ins is closed again

---
 FCollada/FUtils/FUPluginManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUPluginManager.cpp b/FCollada/FUtils/FUPluginManager.cpp
index efa9ffa..f766a81 100644
--- a/FCollada/FUtils/FUPluginManager.cpp
+++ b/FCollada/FUtils/FUPluginManager.cpp
@@ -157,7 +157,11 @@ void FUPluginManager::LoadPluginsInFolderName(const fstring& folderName, const f
 
 				// This is a valid library.
 				if (keep) loadedLibraries.push_back(library);
-				else { SAFE_DELETE(library); }
+				else
+				{
+					if (library->module != NULL) dlclose(library->module);
+					SAFE_DELETE(library);
+				}
 			}
 		}
 		closedir(directory);
-- 
2.43.0


From aacf99edd0bd06ac4e7f3e0074018e79824aaca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 084/121] fix: the path of the program ends where the link ends

---
 FCollada/FUtils/FUFileManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUFileManager.cpp b/FCollada/FUtils/FUFileManager.cpp
index ad0979b..08af65c 100644
--- a/FCollada/FUtils/FUFileManager.cpp
+++ b/FCollada/FUtils/FUFileManager.cpp
@@ -398,7 +398,7 @@ fstring FUFileManager::GetApplicationFolderName()
 		}
 		else
 		{
-			path[max((size_t)1023u, size)] = '\0';
+			path[min((size_t)1023u, size)] = '\0';
 			int i = stat (path, &stat_buf);
 			if (i == -1) break;
 			else if (!S_ISLNK(stat_buf.st_mode)) break;
-- 
2.43.0


From 88907b4f440bff18dc894d3bd29fae5affd36f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 085/121] fix: the plug-in object of an extra tree is released
 with the tree

---
 FCollada/FCDocument/FCDExtra.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDExtra.cpp b/FCollada/FCDocument/FCDExtra.cpp
index 6e48491..b3e40ee 100644
--- a/FCollada/FCDocument/FCDExtra.cpp
+++ b/FCollada/FCDocument/FCDExtra.cpp
@@ -377,7 +377,11 @@ FCDETechnique::FCDETechnique(FCDocument* document, FCDEType* /*parent*/, const c
 {
 }
 
-FCDETechnique::~FCDETechnique() {}
+FCDETechnique::~FCDETechnique()
+{
+	// The plug-in object is released with the extra tree that contains it.
+	if (pluginOverride != NULL) pluginOverride->Release();
+}
 
 FCDENode* FCDETechnique::Clone(FCDENode* clone) const
 {
-- 
2.43.0


From 80c9834e615c0237e83647dd0e23b676dfc0773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 086/121] fix: extra plug-ins are found by their profile and
 not by its checksum

---
 FCollada/FColladaPlugin.cpp | 9 +++------
 FCollada/FColladaPlugin.h   | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/FCollada/FColladaPlugin.cpp b/FCollada/FColladaPlugin.cpp
index 4cdfc75..c0d5600 100644
--- a/FCollada/FColladaPlugin.cpp
+++ b/FCollada/FColladaPlugin.cpp
@@ -94,8 +94,7 @@ void FColladaPluginManager::CreateExtraTechniquePluginMap(FCPExtraMap& map)
 	for (FCPExtraTechnique** itP = extraTechniquePlugins.begin(); itP != extraTechniquePlugins.end(); ++itP)
 	{
 		const char* profileName = (*itP)->GetProfileName();
-		uint32 crc = FUCrc32::CRC32(profileName);
-		map.insert(crc, *itP);
+		map.insert(fm::string(profileName), *itP);
 	}
 }
 
@@ -188,8 +187,7 @@ void FColladaPluginManager::PostImportDocument(FCDocument* document)
 			for (size_t j = 0; j < techniqueCount; ++j)
 			{
 				FCDETechnique* technique = type->GetTechnique(j);
-				uint32 crc = FUCrc32::CRC32(technique->GetProfile());
-				FCPExtraMap::iterator itP = pluginMap.find(crc);
+				FCPExtraMap::iterator itP = pluginMap.find(fm::string(technique->GetProfile()));
 				if (itP != pluginMap.end())
 				{
 					// Call the corresponding plug-in to process this information.
@@ -226,8 +224,7 @@ void FColladaPluginManager::PreExportDocument(FCDocument* document, FCDETechniqu
 				FUTrackable* customized = technique->GetPluginObject();
 				if (customized != NULL)
 				{
-					uint32 crc = FUCrc32::CRC32(technique->GetProfile());
-					FCPExtraMap::iterator itP = pluginMap.find(crc);
+					FCPExtraMap::iterator itP = pluginMap.find(fm::string(technique->GetProfile()));
 					if (itP != pluginMap.end())
 					{
 						techniques.push_back(technique);
diff --git a/FCollada/FColladaPlugin.h b/FCollada/FColladaPlugin.h
index ce73e5c..93e6ec4 100644
--- a/FCollada/FColladaPlugin.h
+++ b/FCollada/FColladaPlugin.h
@@ -261,8 +261,8 @@ private:
 	void PreExportDocument(FCDocument* document, FCDETechniqueList& techniques);
 	void PostExportDocument(FCDocument* document, FCDETechniqueList& techniques);
 
-	/** Make a processed map of CRC32 profile names vs plug-ins to handle them. */
-	typedef fm::map<uint32, FCPExtraTechnique*> FCPExtraMap;
+	/** Make a processed map of profile names vs plug-ins to handle them. */
+	typedef fm::map<fm::string, FCPExtraTechnique*> FCPExtraMap;
 	void CreateExtraTechniquePluginMap(FCPExtraMap& map);
 };
 
-- 
2.43.0


From 4d1ef7c0f37cc83d6358a6529dd964998213cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 087/121] fix: a piecewise export to a file is written and
 ended

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index ae3562f..c7b387c 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -76,6 +76,7 @@
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDVersion.h"
 #include "FUtils/FUXmlDocument.h"
+#include "FUtils/FUFile.h"
 
 #include <libxml/xmlIO.h>
 
@@ -532,9 +533,20 @@ bool FArchiveXML::EndExport(fm::vector<uint8>& outData)
 	daeDocument.ReleaseXmlData();
 	return true;
 }
-bool FArchiveXML::EndExport(const fchar* UNUSED(filePath))
+bool FArchiveXML::EndExport(const fchar* filePath)
 {
-	return false;
+	fm::vector<uint8> data;
+	if (!EndExport(data)) return false;
+
+	FUFile file(filePath, FUFile::WRITE);
+	bool status = false;
+	if (file.IsOpen())
+	{
+		status = file.Write(data.begin(), data.size());
+		status &= file.Close();
+	}
+	if (!status) FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_WRITE_FILE);
+	return status;
 }
 
 bool FArchiveXML::ImportObject(FCDObject* object, const fm::vector<uint8>& data)
-- 
2.43.0


From 466aaf2b1aed57fbb35027df06a0b858b4ef9541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 088/121] fix: what a piecewise export wrote can be imported
 again

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index c7b387c..fdef962 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -552,7 +552,20 @@ bool FArchiveXML::EndExport(const fchar* filePath)
 bool FArchiveXML::ImportObject(FCDObject* object, const fm::vector<uint8>& data)
 {
 	FUXmlDocument loadDocument((const char*) data.begin(), data.size());
-	bool retVal = LoadSwitch(object, &object->GetObjectType(), loadDocument.GetRootNode());
+	xmlNode* objectNode = loadDocument.GetRootNode();
+	if (objectNode != NULL && IsEquivalent(objectNode->name, DAE_COLLADA_ELEMENT))
+	{
+		// This is how EndExport wraps the exported objects.
+		objectNode = objectNode->children;
+		while (objectNode != NULL && objectNode->type != XML_ELEMENT_NODE) objectNode = objectNode->next;
+	}
+	if (objectNode == NULL)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MALFORMED_XML);
+		return false;
+	}
+
+	bool retVal = LoadSwitch(object, &object->GetObjectType(), objectNode);
 	if (FArchiveXML::loadedDocumentCount == 0)
 		FArchiveXML::ClearIntermediateData();
 	return retVal;
-- 
2.43.0


From d3c6326bcf1a32cf99eba934bfb1bbf78fb886b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:10 +0000
Subject: [PATCH 089/121] fix: a piecewise export that was never ended is
 forgotten with its plug-in

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index fdef962..46458c6 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -103,8 +103,14 @@ FArchiveXML::FArchiveXML(void)
 	Initialize();
 }
 
+// The document of the piecewise export.
+// TODO: where should this go?
+static FUXmlDocument daeDocument(NULL, NULL, false);
+
 FArchiveXML::~FArchiveXML(void)
 {
+	// An export that was never ended is abandoned.
+	daeDocument.ReleaseXmlData();
 	xmlLoadFuncs.clear();
 	xmlWriteFuncs.clear();
 }
@@ -484,9 +490,6 @@ bool FArchiveXML::ExportFile(FCDocument* fcdocument, const fchar* filePath)
 	return status;
 }
 
-// TODO: where should this go?
-static FUXmlDocument daeDocument(NULL, NULL, false);
-
 bool FArchiveXML::StartExport(const fchar* UNUSED(filePath))
 {
 	FUAssert(daeDocument.GetRootNode() == NULL, return false);
-- 
2.43.0


From 273c81294f76f6e2fc578226f93be810e6427ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 090/121] fix: a skin with missing or short weights does not
 read past its lists

---
 .../FArchiveXML/FAXControllerImport.cpp       | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 2b9e7a0..6c1dc1d 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -115,6 +115,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (firstCombinerValueNode == NULL)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, combinerNode->line);
+		return status = false;
 	}
 
 	// Process these inputs
@@ -157,13 +158,14 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	}
 
 	// Parse the <vcount> and the <v> elements
-	UInt32List combinerVertexCounts; combinerVertexCounts.reserve(combinerValueCount);
-	Int32List combinerVertexIndices; combinerVertexIndices.reserve(combinerValueCount * 5);
+	UInt32List combinerVertexCounts;
+	Int32List combinerVertexIndices;
 
 	// The <vcount> and the <v> elements are ordered. Read the <vcount> element first.
 	if (!IsEquivalent(firstCombinerValueNode->name, DAE_VERTEXCOUNT_ELEMENT))
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_VCOUNT_MISSING, firstCombinerValueNode->line);
+		return status = false;
 	}
 	const char* content = ReadNodeContentDirect(firstCombinerValueNode);
 	FUStringConversion::ToUInt32List(content, combinerVertexCounts);
@@ -173,7 +175,8 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	while (vNode != NULL && vNode->type != XML_ELEMENT_NODE) vNode = vNode->next;
 	if (vNode == NULL || !IsEquivalent(vNode->name, DAE_VERTEX_ELEMENT))
 	{
-		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, vNode->line);
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_V_ELEMENT_MISSING, combinerNode->line);
+		return status = false;
 	}
 	content = ReadNodeContentDirect(vNode);
 	FUStringConversion::ToInt32List(content, combinerVertexIndices);
@@ -183,10 +186,18 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	if (jointSubIds.size() != invertedBindPoses.size())
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_JC_BPMC_NOT_EQUAL, skinNode->line);
+		invertedBindPoses.resize(jointSubIds.size(), FMMatrix44::Identity);
 	}
 	if (combinerVertexCounts.size() != combinerValueCount)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, skinNode->line);
+		combinerValueCount = (uint32) combinerVertexCounts.size();
+	}
+	if (jointIdx < 0 || jointIdx > 1 || weightIdx < 0 || weightIdx > 1)
+	{
+		// Only the two inputs, joint and weight, are expected for each influence.
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_INPUT, combinerNode->line);
+		return status = false;
 	}
 
 	// Setup the joint-weight-vertex matches
@@ -196,8 +207,14 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 	{
 		FCDSkinControllerVertex* vert = skinController->GetVertexInfluence(j);
 		uint32 localValueCount = combinerVertexCounts[j];
+		if (localValueCount > (combinerVertexIndexCount - offset) / 2)
+		{
+			// There are not enough indices left for this vertex.
+			FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_INVALID_VCOUNT, skinNode->line);
+			localValueCount = (uint32) ((combinerVertexIndexCount - offset) / 2);
+		}
 		vert->SetPairCount(localValueCount);
-		for (size_t i = 0; i < localValueCount && offset < combinerVertexIndexCount - 1; ++i)
+		for (size_t i = 0; i < localValueCount; ++i)
 		{
 			FCDJointWeightPair* pair = vert->GetPair(i);
 			pair->jointIndex = combinerVertexIndices[offset + jointIdx];
@@ -212,7 +229,7 @@ bool FArchiveXML::LoadSkinController(FCDObject* object, xmlNode* skinNode)
 				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_INVALID_WEIGHT_INDEX);
 				weightIndex = 0;
 			}
-			pair->weight = weights[weightIndex];
+			pair->weight = (weightIndex < weightCount) ? weights[weightIndex] : 0.0f;
 			offset += 2;
 		}
 	}
-- 
2.43.0


From 1fa1924fd272b2f58b0bc10f4b7dc23a50d78e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 091/121] fix: a morpher without targets, or with too few
 weights, does not crash the load

---
 FColladaPlugins/FArchiveXML/FAXControllerImport.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
index 6c1dc1d..fe9a368 100644
--- a/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXControllerImport.cpp
@@ -288,7 +288,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 	{
 		//return status.Fail(FS("Cannot find necessary <targets> element for morph controller: ") + TO_FSTRING(parent->GetDaeId()), morphNode->line);
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_ELEMENT, morphNode->line);
-
+		return status;
 	}
 	xmlNodeList inputNodes;
 	FindChildrenByType(targetsNode, DAE_INPUT_ELEMENT, inputNodes);
@@ -328,6 +328,7 @@ bool FArchiveXML::LoadMorphController(FCDObject* object, xmlNode* morphNode)
 	if (weights.size() != targetCount)
 	{
 		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_SOURCE_SIZE, targetSourceNode->line);
+		weights.resize(targetCount, 0.0f);
 	}
 
 	// Find the target geometries and build the morph targets
-- 
2.43.0


From 867acca2df1bce2a03074e919c0c7f323f6d114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:48 +0000
Subject: [PATCH 092/121] fix: a mesh without vertices does not crash the load

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 532037b..9fd44e7 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -113,11 +113,11 @@ bool FArchiveXML::LoadGeometryMesh(FCDObject* object, xmlNode* meshNode)
 	}
 	if (!hasPositions)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VP_INPUT_NODE_MISSING, (verticesNode != NULL) ? verticesNode->line : meshNode->line);
 	}
 	if (geometryMesh->GetVertexSourceCount() == 0)
 	{
-		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, verticesNode->line);
+		status &= !FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_GEOMETRY_VERTICES_MISSING, (verticesNode != NULL) ? verticesNode->line : meshNode->line);
 	}
 
 	// Create our rendering object and read in the tessellation
-- 
2.43.0


From b573711af741f07f13ffb4a97d31ccdacebc5991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 093/121] fix: a spline of an unknown type does not crash the
 load

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 9fd44e7..8d667e4 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -589,6 +589,11 @@ bool FArchiveXML::LoadGeometrySpline(FCDObject* object, xmlNode* splineNode)
 
 		// Read in the typed spline.
 		FCDSpline* spline = geometrySpline->AddSpline();
+		if (spline == NULL)
+		{
+			FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_VARYING_SPLINE_TYPE, splineNode->line);
+			return status;
+		}
 		bool s = FArchiveXML::LoadSwitch(spline, &spline->GetObjectType(), splineNode);
 		if (!s)
 		{
-- 
2.43.0


From 71d50e4862d7391df6ea4ce4622e5c6b8ebc122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:21 +0000
Subject: [PATCH 094/121] fix: sources whose accessor announces more values
 than there are do not overrun their lists

---
 .../FArchiveXML/FAXColladaParser.cpp          | 72 +++++++++++--------
 1 file changed, 43 insertions(+), 29 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
index ac45698..17e34fc 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaParser.cpp
@@ -127,6 +127,20 @@ namespace FUDaeParser
 		}
 	}
 
+	// The number of values that the accessor announces, when there can be as many in the given text.
+	static size_t CalculateReadCount(uint32 count, uint32 stride, const char* content)
+	{
+		size_t maximum = (strlen(content) + 1) / 2;
+		return (count > maximum / stride) ? maximum : (size_t) count * stride;
+	}
+
+	// The stride that the accessor announces, when there can be as many values in the given text.
+	static uint32 CalculateReadStride(uint32 stride, size_t expected, const char* content)
+	{
+		size_t maximum = expected + strlen(content);
+		return (stride > maximum) ? (uint32) maximum : stride;
+	}
+
 	// Retrieves a list of floats from a source node
 	// Returns the data's stride.
 	uint32 ReadSource(xmlNode* sourceNode, FloatList& array)
@@ -137,10 +151,10 @@ namespace FUDaeParser
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
 			stride = ReadNodeStride(accessorNode);
-			array.resize(ReadNodeCount(accessorNode) * stride);
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(CalculateReadCount(ReadNodeCount(accessorNode), stride, arrayContent));
 			FUStringConversion::ToFloatList(arrayContent, array);
 		}
 		return stride;
@@ -153,10 +167,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(CalculateReadCount(ReadNodeCount(accessorNode), 1, arrayContent));
 			FUStringConversion::ToInt32List(arrayContent, array);
 		}
 	}
@@ -168,11 +182,11 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
 			if (arrayNode == NULL) arrayNode = FindChildByType(sourceNode, DAE_IDREF_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(CalculateReadCount(ReadNodeCount(accessorNode), 1, arrayContent));
 			FUStringConversion::ToStringList(arrayContent, array);
 		}
 	}
@@ -184,10 +198,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(CalculateReadCount(ReadNodeCount(accessorNode), 1, arrayContent));
 			FUStringConversion::ToPointList(arrayContent, array);
 		}
 	}
@@ -199,10 +213,10 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			array.resize(ReadNodeCount(accessorNode));
 
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			array.resize(CalculateReadCount(ReadNodeCount(accessorNode), 1, arrayContent));
 			FUStringConversion::ToMatrixList(arrayContent, array);
 		}
 	}
@@ -214,20 +228,20 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			size_t count = CalculateReadCount(ReadNodeCount(accessorNode), 1, arrayContent);
 			for (fm::pvector<FloatList>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
 			}
 
 			// Use the stride to pad the interleaved float lists or remove extra elements
-			uint32 stride = ReadNodeStride(accessorNode);
+			uint32 stride = CalculateReadStride(ReadNodeStride(accessorNode), arrays.size(), arrayContent);
 			while (stride < arrays.size()) arrays.pop_back();
 			while (stride > arrays.size()) arrays.push_back(NULL);
 
-			// Read and parse the float array
-   			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-			const char* arrayContent = ReadNodeContentDirect(arrayNode);
+			// Parse the float array
 			FUStringConversion::ToInterleavedFloatList(arrayContent, arrays);
 		}
 	}
@@ -239,7 +253,9 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* value = ReadNodeContentDirect(arrayNode);
+			size_t count = CalculateReadCount(ReadNodeCount(accessorNode), 1, value);
 			for (fm::pvector<FMVector2List>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
@@ -247,12 +263,10 @@ namespace FUDaeParser
 
 			// Backward Compatibility: if the stride is exactly half the expected value,
 			// then we have the old 1D tangents that we need to parse correctly.
-			stride = ReadNodeStride(accessorNode);
+			stride = CalculateReadStride(ReadNodeStride(accessorNode), arrays.size() * 2, value);
 			if (stride > 0 && stride == arrays.size())
 			{
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; j < stride && *value != 0; ++j)
@@ -275,9 +289,7 @@ namespace FUDaeParser
 				while (stride < arrays.size() * 2) arrays.pop_back();
 				while (stride > arrays.size() * 2) arrays.push_back(NULL);
 
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; 2 * j < stride && *value != 0; ++j)
@@ -325,7 +337,9 @@ namespace FUDaeParser
 		{
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
-			uint32 count = ReadNodeCount(accessorNode);
+			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
+			const char* value = ReadNodeContentDirect(arrayNode);
+			size_t count = CalculateReadCount(ReadNodeCount(accessorNode), 1, value);
 			for (fm::pvector<FMVector3List>::iterator it = arrays.begin(); it != arrays.end(); ++it)
 			{
 				(*it)->resize(count);
@@ -333,12 +347,10 @@ namespace FUDaeParser
 
 			// Backward Compatibility: if the stride is exactly half the expected value,
 			// then we have the old 1D tangents that we need to parse correctly.
-			stride = ReadNodeStride(accessorNode);
+			stride = CalculateReadStride(ReadNodeStride(accessorNode), arrays.size() * 3, value);
 			if (stride > 0 && stride == arrays.size())
 			{
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; j < stride && *value != 0; ++j)
@@ -361,9 +373,7 @@ namespace FUDaeParser
 				while (stride < arrays.size() * 3) arrays.pop_back();
 				while (stride > arrays.size() * 3) arrays.push_back(NULL);
 
-				// Read and parse the float array
-				xmlNode* arrayNode = FindChildByType(sourceNode, DAE_FLOAT_ARRAY_ELEMENT);
-				const char* value = ReadNodeContentDirect(arrayNode);
+				// Parse the float array
 				for (size_t i = 0; i < count && *value != 0; ++i)
 				{
 					for (size_t j = 0; 3 * j < stride && *value != 0; ++j)
@@ -385,7 +395,7 @@ namespace FUDaeParser
 
 				while (*value != 0)
 				{
-					for (size_t i = 0; 2 * i < stride && *value != 0; ++i)
+					for (size_t i = 0; 3 * i < stride && *value != 0; ++i)
 					{
 						if (arrays[i] != NULL)
 						{
@@ -416,16 +426,20 @@ namespace FUDaeParser
 			// Get the accessor's count
 			xmlNode* accessorNode = FindTechniqueAccessor(sourceNode);
 			uint32 count = ReadNodeCount(accessorNode);
-			array.resize(count);
 
 			// Backward compatibility: drop the unwanted interpolation values.
 			// Before, we exported one interpolation token for each dimension of a merged curve.
 			// Now, we export one interpolation token for each key of a merged curve.
 			uint32 stride = ReadNodeStride(accessorNode);
-			StringList stringArray(count * stride);
+			StringList stringArray;
 			xmlNode* arrayNode = FindChildByType(sourceNode, DAE_NAME_ARRAY_ELEMENT);
 			const char* arrayContent = ReadNodeContentDirect(arrayNode);
 			FUStringConversion::ToStringList(arrayContent, stringArray);
+
+			// There may be less interpolation tokens than the accessor announces.
+			size_t available = (stringArray.size() + stride - 1) / stride;
+			if (count > available) count = (uint32) available;
+			array.resize(count);
 			for (uint32 i = 0; i < count; ++i)
 			{
 				array[i] = (uint32) FUDaeInterpolation::FromString(stringArray[i * stride]);
-- 
2.43.0


From 04b78b2afbe6c91676635281e9ae24244e68a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 095/121] fix: a tessellation without indexed sources does not
 crash the load

---
 FCollada/FUtils/FUStringConversion.hpp        |  8 +++++--
 .../FArchiveXML/FAXGeometryImport.cpp         | 22 ++++++++++++++++++-
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 576bec5..4619555 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -390,7 +390,9 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedFloatList(const CH* value,
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		// Some of the arrays may be missing: their values are skipped.
+		size_t length = 0;
+		for (size_t i = stride; i > 0; --i) if (arrays[i - 1] != NULL) length = arrays[i - 1]->size();
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
@@ -439,7 +441,9 @@ FCOLLADA_EXPORT void FUStringConversion::ToInterleavedUInt32List(const CH* value
 	size_t validCount = 0;
 	if (value != NULL && *value != 0 && stride > 0)
 	{
-		size_t length = arrays[0]->size();
+		// Some of the arrays may be missing: their values are skipped.
+		size_t length = 0;
+		for (size_t i = stride; i > 0; --i) if (arrays[i - 1] != NULL) length = arrays[i - 1]->size();
 		for (size_t count = 0; count < length && *value != 0; ++count, ++validCount)
 		{
 			for (size_t i = 0; i < stride && *value != 0; ++i)
diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 8d667e4..980f8c2 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -285,11 +285,17 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		if (IsEquivalent(itNode->name, DAE_INPUT_ELEMENT))
 		{
 			fm::string sourceId = ReadNodeSource(itNode);
-			if (sourceId[0] == '#') sourceId.erase(0, 1);
+			if (!sourceId.empty() && sourceId[0] == '#') sourceId.erase(0, 1);
 
 			// Parse input idx/offset
 			fm::string idx = ReadNodeProperty(itNode, DAE_OFFSET_ATTRIBUTE);
 			uint32 offset = (!idx.empty()) ? FUStringConversion::ToUInt32(idx) : (uint32) (idxOwners.size() + 1);
+			if (offset >= 0x10000)
+			{
+				// No tessellation interleaves this many indices.
+				FUError::Error(FUError::WARNING_LEVEL, FUError::WARNING_UNKNOWN_POLYGONS_INPUT, itNode->line);
+				continue;
+			}
 			if (offset >= idxOwners.size()) idxOwners.resize(offset + 1);
 
 			// Parse input set
@@ -416,6 +422,13 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		}
 	}
 
+	if (isTriangles)
+	{
+		// The 'count' attribute may announce more triangles than there are indices.
+		size_t indicesLength = strlen(ReadNodeContentDirect(FindChildByType(baseNode, DAE_POLYGON_ELEMENT)));
+		if (expectedVertexCount > indicesLength) expectedVertexCount = indicesLength;
+	}
+
 	// Pre-allocate the buffers with enough memory
 	fm::pvector<UInt32List> allIndices;
 	UInt32List* masterIndices = NULL;
@@ -434,6 +447,13 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 		}
 	}
 
+	if (masterIndices == NULL)
+	{
+		// The vertices have no source, so there is nothing for the indices to refer to.
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_NO_VERTEX_INPUT, baseNode->line);
+		return status;
+	}
+
 	// Process the tessellation
 	for (; itNode != NULL; itNode = itNode->next)
 	{
-- 
2.43.0


From 411a1d807d1e697b97a73b2da17effecd7e53055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 096/121] fix: a light without its common technique does not
 crash the load

---
 FColladaPlugins/FArchiveXML/FAXLightImport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
index 5495648..7ebdd61 100644
--- a/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXLightImport.cpp
@@ -30,7 +30,7 @@ bool FArchiveXML::LoadLight(FCDObject* object, xmlNode* lightNode)
 
 	// Look for the <point>, <directional>, <spot> or <ambient> element under the common-profile technique
 	xmlNode* lightParameterNode = NULL;
-	for (xmlNode* child = commonTechniqueNode->children; child != NULL; child = child->next)
+	for (xmlNode* child = (commonTechniqueNode != NULL) ? commonTechniqueNode->children : NULL; child != NULL; child = child->next)
 	{
 		if (child->type != XML_ELEMENT_NODE) continue;
 		if (IsEquivalent(child->name, DAE_LIGHT_POINT_ELEMENT)) { lightParameterNode = child; light->SetLightType(FCDLight::POINT); break; }
-- 
2.43.0


From 43cf37e9a3616b347d60edbe830fdb2e77f06504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 097/121] fix: an animation whose stride is larger than its
 output is not given that many curves

---
 FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
index 773028e..9684fc4 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationImport.cpp
@@ -88,6 +88,14 @@ bool FArchiveXML::LoadAnimationChannel(FCDObject* object, xmlNode* channelNode)
 	uint32 curveCount = FUStringConversion::ToUInt32(accessorStrideString);
 	if (curveCount == 0) curveCount = 1;
 
+	// The largest animated values are the matrices: there cannot be more curves unless there are as many outputs.
+	size_t outputLength = strlen(ReadNodeContentDirect(FindChildByType(outputSource, DAE_FLOAT_ARRAY_ELEMENT)));
+	if (curveCount > 16 && curveCount > outputLength)
+	{
+		FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_MISSING_INPUT, samplerNode->line);
+		return false;
+	}
+
 	// Create the animation curves
 	for (uint32 i = 0; i < curveCount; ++i)
 	{
-- 
2.43.0


From a66579c58f351d95e4a1cce98e7c2541897abc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 098/121] fix: a curve that is linked twice to one animated
 value is tracked once

---
 FCollada/FCDocument/FCDAnimated.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDAnimated.cpp b/FCollada/FCDocument/FCDAnimated.cpp
index 20f4ad5..31ca777 100644
--- a/FCollada/FCDocument/FCDAnimated.cpp
+++ b/FCollada/FCDocument/FCDAnimated.cpp
@@ -84,6 +84,7 @@ FCDAnimated::~FCDAnimated()
 bool FCDAnimated::AddCurve(size_t index, FCDAnimationCurve* curve)
 {
 	FUAssert(index < GetValueCount(), return false);
+	if (curves.at(index).contains(curve)) return true; // The curve affects this value already.
 	curves.at(index).push_back(curve);
 	SetNewChildFlag();
 	return true;
@@ -92,7 +93,10 @@ bool FCDAnimated::AddCurve(size_t index, FCDAnimationCurve* curve)
 bool FCDAnimated::AddCurve(size_t index, FCDAnimationCurveList& curve)
 {
 	FUAssert(index < GetValueCount() && !curve.empty(), return false);
-	curves.at(index).insert(curves.at(index).end(), curve.begin(), curve.end());
+	for (FCDAnimationCurveList::iterator it = curve.begin(); it != curve.end(); ++it)
+	{
+		if (!curves.at(index).contains(*it)) curves.at(index).push_back(*it);
+	}
 	SetNewChildFlag();
 	return true;
 }
-- 
2.43.0


From 4ccd76a89419a3a6f2fd183e2ce8bd9b0638459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 099/121] fix: the volume of a shape does not read past an
 incomplete position

---
 FCollada/FCDocument/FCDPhysicsShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index fd3d59b..30e27a4 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -218,7 +218,7 @@ float FCDPhysicsShape::CalculateVolume() const
 				FUAssert(positionStride == 3, continue;);
 				const float* positionData = positionSource->GetData();
 				size_t positionDataLength = positionSource->GetDataCount();
-				for (size_t pos = 0; pos < positionDataLength;)
+				for (size_t pos = 0; pos + positionStride <= positionDataLength;)
 				{
 					boundary.Include(FMVector3(positionData, (uint32)pos));
 					pos += positionStride;
-- 
2.43.0


From 8430089fb9f4b1f898f3c7c216f2569c46855de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:48 +0000
Subject: [PATCH 100/121] fix: curves of one channel that animate several
 values are not merged at export

---
 FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp | 6 ++++++
 FColladaPlugins/FArchiveXML/FAXStructures.h        | 1 +
 2 files changed, 7 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
index 5be9f64..09e72e4 100644
--- a/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXAnimationExport.cpp
@@ -87,6 +87,9 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 		}
 	}
 
+	// The merged curves must all belong to one animated value.
+	mergeCurves &= !data.severalValues;
+
 	if (mergeCurves && realCurveCount > 1)
 	{
 		// Prepare the list of default values
@@ -152,6 +155,7 @@ xmlNode* FArchiveXML::WriteAnimationChannel(FCDObject* object, xmlNode* parentNo
 	}
 
 	data.defaultValues.clear();
+	data.severalValues = false;
 	return parentNode;
 
 }
@@ -310,6 +314,8 @@ void FArchiveXML::WriteAnimatedValue(const FCDAnimated* _animated, xmlNode* valu
 			FCDAnimationChannel* channel = (*itC);
 			FCDAnimationChannelData& channelData = FArchiveXML::documentLinkDataMap[channel->GetDocument()].animationChannelData[channel];
 
+			if (!channelData.defaultValues.empty()) channelData.severalValues = true;
+
 			for (size_t i = 0; i < animated->GetValueCount(); ++i)
 			{
 				FCDAnimationCurveTrackList& curves = animated->GetCurves()[i];
diff --git a/FColladaPlugins/FArchiveXML/FAXStructures.h b/FColladaPlugins/FArchiveXML/FAXStructures.h
index 5dc3054..6ec5a6f 100644
--- a/FColladaPlugins/FArchiveXML/FAXStructures.h
+++ b/FColladaPlugins/FArchiveXML/FAXStructures.h
@@ -138,6 +138,7 @@ struct FCDAnimationChannelData
 	// Export parameters
 	FAXAnimationChannelDefaultValueList defaultValues;
 	FCDAnimated* animatedValue = nullptr;
+	bool severalValues = false;
 
 	FCDAnimationChannelData()
 	{
-- 
2.43.0


From 52aaec44c0d5f68d3ad9dd0208012eb1beaa1224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 101/121] fix: a physics shape that refers to a material keeps
 it in the file

---
 FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
index b6f5d92..a712618 100644
--- a/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXPhysicsExport.cpp
@@ -44,6 +44,11 @@ xmlNode* FArchiveXML::WritePhysicsShape(FCDObject* object, xmlNode* parentNode)
 	{
 		FArchiveXML::LetWriteObject(physicsShape->GetInstanceMaterial(), physicsShapeNode);
 	}
+	else if (physicsShape->GetPhysicsMaterial())
+	{
+		xmlNode* instanceNode = AddChild(physicsShapeNode, DAE_INSTANCE_PHYSICS_MATERIAL_ELEMENT);
+		AddAttribute(instanceNode, DAE_URL_ATTRIBUTE, fm::string("#") + physicsShape->GetPhysicsMaterial()->GetDaeId());
+	}
 
 	if (physicsShape->GetGeometryInstance())
 		FArchiveXML::LetWriteObject(physicsShape->GetGeometryInstance(), physicsShapeNode);
-- 
2.43.0


From cf01121bb8e6bc651e91c9eb930b54c009548b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 102/121] fix: making an empty or rootless path relative does
 not read past the path stacks

---
 FCollada/FUtils/FUUri.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUUri.cpp b/FCollada/FUtils/FUUri.cpp
index 69d8b04..a3be4e5 100644
--- a/FCollada/FUtils/FUUri.cpp
+++ b/FCollada/FUtils/FUUri.cpp
@@ -460,9 +460,15 @@ fstring FUUri::MakeRelative(const fstring& _path) const
 		ExtractPathStack(path, documentPaths, false);
 		ExtractPathStack(filePath, localPaths, true);
 
+		if (localPaths.empty())
+		{
+			// There is no file name to make relative.
+			return _path;
+		}
+
 		if (GetHostname().empty() && GetScheme() == uri.GetScheme() && GetScheme() == FUUri::FILE)
 		{
-			if (!IsEquivalent(documentPaths.front(), localPaths.front()))
+			if (documentPaths.empty() || !IsEquivalent(documentPaths.front(), localPaths.front()))
 			{
 				// We're not on the same drive, return absolute path
 				return _path;
-- 
2.43.0


From 0ed249621f61323482579b4d56f4c592646e8469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 103/121] fix: CDATA sections and comments inside the content
 of an element do not cut it short

---
 FCollada/FUtils/FUXmlDocument.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/FCollada/FUtils/FUXmlDocument.cpp b/FCollada/FUtils/FUXmlDocument.cpp
index 208a658..4678254 100644
--- a/FCollada/FUtils/FUXmlDocument.cpp
+++ b/FCollada/FUtils/FUXmlDocument.cpp
@@ -16,6 +16,20 @@
 #include <libxml/parser.h>
 
 #define MAX_FILE_SIZE 10240000
+
+// Builds the XML tree of a text. Comments and processing instructions are left out and CDATA sections
+// are plain text, so that the content of a node is always in one piece.
+static xmlDoc* ParseXml(const char* data, int length)
+{
+	xmlParserCtxt* context = xmlNewParserCtxt();
+	if (context == NULL) return NULL;
+	context->sax->comment = NULL;
+	context->sax->processingInstruction = NULL;
+	xmlDoc* document = xmlCtxtReadMemory(context, data, length, NULL, NULL, XML_PARSE_NOCDATA);
+	xmlFreeParserCtxt(context);
+	return document;
+}
+
 //
 // FUXmlDocument
 //
@@ -38,7 +52,7 @@ FUXmlDocument::FUXmlDocument(FUFileManager* manager, const fchar* _filename, boo
 			file->Close();
 
 			// Open the given XML file.
-			if (complete) xmlDocument = xmlParseMemory(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
+			if (complete) xmlDocument = ParseXml(reinterpret_cast<const char*>(fileData), static_cast<int>(fileLength));
 			SAFE_DELETE_ARRAY(fileData);
 		}
 		SAFE_DELETE(file);
@@ -66,7 +80,7 @@ FUXmlDocument::FUXmlDocument(const char* data, size_t length)
 	}
 
 	// Open the given XML file.
-	xmlDocument = xmlParseMemory(data, static_cast<int>(length));
+	xmlDocument = ParseXml(data, static_cast<int>(length));
 }
 
 FUXmlDocument::~FUXmlDocument()
-- 
2.43.0


From f4248c8ca981450f78d60cd57c9499e439a716d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 104/121] fix: vertices that do not come first in the indices
 of a tessellation keep their own indices

---
 FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
index 980f8c2..305957d 100644
--- a/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXGeometryImport.cpp
@@ -322,6 +322,7 @@ bool FArchiveXML::LoadGeometryPolygons(FCDObject* object, xmlNode* baseNode)
 					FCDGeometrySource* vertexSource = geometryPolygons->GetParent()->GetVertexSource(i);
 					FCDGeometryPolygonsInput* vertexInput = geometryPolygons->FindInput(vertexSource);
 					if (vertexInput == NULL) vertexInput = geometryPolygons->AddInput(vertexSource, offset);
+					else vertexInput->SetOffset(offset);
 					if (idxOwners[offset] == NULL) idxOwners[offset] = vertexInput;
 					vertexInput->SetSet(set);
 				}
-- 
2.43.0


From 809cc5597a58a1bfa488d5b6578f26b94e9ee83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 105/121] fix: white space in front of a truth value does not
 make it true

---
 FCollada/FUtils/FUStringConversion.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 4619555..bb49b29 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -21,7 +21,9 @@
 template<class CH>
 FCOLLADA_EXPORT bool FUStringConversion::ToBoolean(const CH* value)
 {
-	return value != NULL && *value != 0 && *value != '0' && *value != 'f' && *value != 'F';
+	if (value == NULL) return false;
+	while (*value == ' ' || *value == '\t' || *value == '\r' || *value == '\n') ++value;
+	return *value != 0 && *value != '0' && *value != 'f' && *value != 'F';
 }
 
 // Convert a fstring to a int32 and advance the character pointer
-- 
2.43.0


From 9f7ab7b06d82d6e3f2511dc1c15b95d7f4aa5b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 106/121] fix: numbers with a plus sign, also in the exponent,
 are read

---
 FCollada/FUtils/FUStringConversion.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index bb49b29..9389dd0 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -40,6 +40,7 @@ FCOLLADA_EXPORT int32 FUStringConversion::ToInt32(const CH** value)
 	int32 val = 0;
 	int32 sign = 1;
 	if (*s == '-') { ++s; sign = -1; }
+	else if (*s == '+') ++s;
 
 	while ((c = *s) != 0)
 	{
@@ -69,6 +70,7 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	double val = 0.0;
 	float sign = 1.0;
 	if (*s == '-') { ++s; sign = -1.0; }
+	else if (*s == '+') ++s;
 	float decimals = 0.0;
 	int32 exponent = 0;
 	bool infinity = false;
@@ -142,6 +144,7 @@ FCOLLADA_EXPORT uint32 FUStringConversion::ToUInt32(const CH** value)
 	while ((c = *s) != 0 && (c == ' ' || c == '\t' || c == '\r' || c == '\n')) { ++s; }
 
 	uint32 val = 0;
+	if (*s == '+') ++s;
 	while ((c = *s) != 0)
 	{
 		if (c >= '0' && c <= '9') val = val * 10 + c - '0';
-- 
2.43.0


From a3264fe56512d6ebb1c252fb2cca822a515c0c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 107/121] fix: dates with fractions of seconds or an offset
 from universal time are read

---
 FCollada/FUtils/FUStringConversion.hpp | 56 +++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 9389dd0..464aed7 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -199,20 +199,54 @@ FCOLLADA_EXPORT void FUStringConversion::ToMatrix(const CH** s, FMMatrix44& mx)
 template<class CH>
 FCOLLADA_EXPORT void FUStringConversion::ToDateTime(const CH* value, FUDateTime& dateTime)
 {
-	// Manually calculate the length in order to avoid the strlen/fstrlen nightmare.
-	size_t length;
-	const CH* c = value;
-	for (length = 0; *c != 0; ++length) ++c;
+	while (*value == ' ' || *value == '\t' || *value == '\r' || *value == '\n') ++value;
+
+	// The date and time always have this form: YYYY-MM-DDThh:mm:ss
+	static const char form[] = "0000-00-00T00:00:00";
+	for (size_t i = 0; form[i] != 0; ++i)
+	{
+		if (form[i] == '0' ? (value[i] < '0' || value[i] > '9') : value[i] != (CH) form[i]) return;
+	}
+	uint32 year = ToUInt32(value), month = ToUInt32(value + 5), day = ToUInt32(value + 8);
+	int32 minutes = (int32) (ToUInt32(value + 11) * 60 + ToUInt32(value + 14));
+	uint32 seconds = ToUInt32(value + 17);
+
+	// Fractions of seconds are not kept.
+	value += 19;
+	if (*value == '.') do { ++value; } while (*value >= '0' && *value <= '9');
 
-	if (length == 20)
+	// An offset from universal time may follow: +hh:mm or -hh:mm.
+	if (*value == '+' || *value == '-')
 	{
-		dateTime.SetYear(ToUInt32(value)); value += 5;
-		dateTime.SetMonth(ToUInt32(value)); value += 3;
-		dateTime.SetDay(ToUInt32(value)); value += 3;
-		dateTime.SetHour(ToUInt32(value)); value += 3;
-		dateTime.SetMinutes(ToUInt32(value)); value += 3;
-		dateTime.SetSeconds(ToUInt32(value));
+		for (size_t i = 1; i < 6; ++i)
+		{
+			if (i == 3 ? value[i] != ':' : (value[i] < '0' || value[i] > '9')) return;
+		}
+		int32 offset = (int32) (ToUInt32(value + 1) * 60 + ToUInt32(value + 4));
+		minutes -= (*value == '+') ? offset : -offset;
+		static const uint32 monthDays[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
+#define DAYS_IN_MONTH (monthDays[(month + 11) % 12] + ((month == 2 && year % 4 == 0 && (year % 100 != 0 || year % 400 == 0)) ? 1 : 0))
+		for (; minutes < 0; minutes += 24 * 60)
+		{
+			if (--day > 0) continue;
+			if (--month == 0) { month = 12; --year; }
+			day = DAYS_IN_MONTH;
+		}
+		for (; minutes >= 24 * 60; minutes -= 24 * 60)
+		{
+			if (++day <= DAYS_IN_MONTH) continue;
+			day = 1;
+			if (++month > 12) { month = 1; ++year; }
+		}
+#undef DAYS_IN_MONTH
 	}
+
+	dateTime.SetYear(year);
+	dateTime.SetMonth(month);
+	dateTime.SetDay(day);
+	dateTime.SetHour((uint32) minutes / 60);
+	dateTime.SetMinutes((uint32) minutes % 60);
+	dateTime.SetSeconds(seconds);
 }
 
 // Convert a fstring to a (X,Y,Z) Point object
-- 
2.43.0


From a323256dfd3e9fe0966c0215faa4d1419076d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 108/121] fix: infinite values are read

---
 FCollada/FUtils/FUStringConversion.hpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/FCollada/FUtils/FUStringConversion.hpp b/FCollada/FUtils/FUStringConversion.hpp
index 464aed7..6746480 100644
--- a/FCollada/FUtils/FUStringConversion.hpp
+++ b/FCollada/FUtils/FUStringConversion.hpp
@@ -101,20 +101,8 @@ FCOLLADA_EXPORT float FUStringConversion::ToFloat(const CH** value)
 	float out = 0.0f;
 	if (infinity) // test for infinity
 	{
-		infinity = false;
-		c = *(s++);
-		if (c != 'I') infinity = false;
-		else
-		{
-			c = *(s++);
-			if (c != 'N') infinity = false;
-			else
-			{
-				c = *(s++);
-				if (c != 'F') infinity = false;
-				else out = std::numeric_limits<float>::infinity() * ((float) sign);
-			}
-		}
+		infinity = s[0] == 'I' && s[1] == 'N' && s[2] == 'F';
+		if (infinity) out = std::numeric_limits<float>::infinity() * ((float) sign);
 	}
 	if (!infinity)
 	{
-- 
2.43.0


From 36ceb44cba006641376ce5775881e451d5fc3fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 109/121] fix: bound parameters of three and four values are
 written with their type and semantic

---
 FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
index 2fb2282..0820616 100644
--- a/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXMaterialExport.cpp
@@ -217,6 +217,12 @@ xmlNode* FArchiveXML::WriteEffectParameterFloat3(FCDObject* object, xmlNode* par
 	FCDEffectParameterFloat3* effectParameterFloat3 = (FCDEffectParameterFloat3*) object;
 
 	xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterFloat3, parentNode);
+	if (effectParameterFloat3->IsAnimator())
+	{
+		AddAttribute(parameterNode, DAE_SEMANTIC_ATTRIBUTE, effectParameterFloat3->GetSemantic());
+		AddAttribute(parameterNode, DAE_TYPE_ATTRIBUTE, DAEFC_FLOAT3_ATTRIBUTE_TYPE);
+		return parameterNode;
+	}
 	fm::string s = FUStringConversion::ToString((FMVector3&) effectParameterFloat3->GetValue());
 	AddChild(parameterNode, (effectParameterFloat3->GetFloatType() == FCDEffectParameterFloat3::FLOAT) ? DAE_FXCMN_FLOAT3_ELEMENT : DAE_FXCMN_HALF3_ELEMENT, s);
 	const char* wantedSubId = effectParameterFloat3->GetReference().c_str();
@@ -501,7 +507,7 @@ xmlNode* FArchiveXML::WriteEffectParameterVector(FCDObject* object, xmlNode* par
 	else if (effectParameterVector->IsAnimator())
 	{
 		xmlNode* parameterNode = FArchiveXML::WriteEffectParameter(effectParameterVector, parentNode);
-		AddAttribute(parameterNode, DAE_FXSTD_STATE_REF_ELEMENT, effectParameterVector->GetReference());
+		AddAttribute(parameterNode, DAE_SEMANTIC_ATTRIBUTE, effectParameterVector->GetSemantic());
 		AddAttribute(parameterNode, DAE_TYPE_ATTRIBUTE, DAEFC_FLOAT4_ATTRIBUTE_TYPE);
 		return parameterNode;
 	}
-- 
2.43.0


From 9ff4a0a31e26608019065313ca77540d787bedf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 110/121] fix: setting the geometry a morph target has already
 does not release it

---
 FCollada/FCDocument/FCDMorphController.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDMorphController.cpp b/FCollada/FCDocument/FCDMorphController.cpp
index 9077f41..370eb90 100644
--- a/FCollada/FCDocument/FCDMorphController.cpp
+++ b/FCollada/FCDocument/FCDMorphController.cpp
@@ -188,7 +188,7 @@ void FCDMorphTarget::SetGeometry(FCDGeometry* _geometry)
 {
 	// Let go of the old geometry
 	FCDGeometry* oldGeometry = geometry;
-	if (oldGeometry != NULL && oldGeometry->GetTrackerCount() == 1)
+	if (oldGeometry != NULL && oldGeometry != _geometry && oldGeometry->GetTrackerCount() == 1)
 	{
 		SAFE_RELEASE(geometry);
 	}
-- 
2.43.0


From 54a15b407a738a82976f18cfa30162de52a7010a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:40 +0000
Subject: [PATCH 111/121] fix: a data source with no stride yet has no values,
 instead of dividing by zero

---
 FCollada/FCDocument/FCDGeometrySource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDGeometrySource.h b/FCollada/FCDocument/FCDGeometrySource.h
index 88b07f8..5d79735 100644
--- a/FCollada/FCDocument/FCDGeometrySource.h
+++ b/FCollada/FCDocument/FCDGeometrySource.h
@@ -109,7 +109,7 @@ public:
 
 	/** Retrieves the number of individual source values contained in the source.
 		@return The number of source values. */
-	inline size_t GetValueCount() const { return sourceData.size() / stride; }
+	inline size_t GetValueCount() const { return (stride > 0) ? sourceData.size() / stride : 0; }
 
 	/** Retrieves the max number of values this input can handle before memory is reallocated.
 		@return The number of source values. */
-- 
2.43.0


From fe52628dc1e8ac28ab3c68891847692f1aba27d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:22 +0000
Subject: [PATCH 112/121] fix: a curve added twice to an animation clip is in
 it once

---
 FCollada/FCDocument/FCDAnimationClip.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FCollada/FCDocument/FCDAnimationClip.cpp b/FCollada/FCDocument/FCDAnimationClip.cpp
index 0fe71a6..f6d45de 100644
--- a/FCollada/FCDocument/FCDAnimationClip.cpp
+++ b/FCollada/FCDocument/FCDAnimationClip.cpp
@@ -36,6 +36,8 @@ FCDAnimationClip::~FCDAnimationClip()
 
 void FCDAnimationClip::AddClipCurve(FCDAnimationCurve* curve)
 {
+	FUAssert(curve != NULL, return);
+	if (curves.contains(curve)) return; // The curve belongs to this clip already.
 	curve->RegisterAnimationClip(this);
 	curves.push_back(curve);
 	SetNewChildFlag();
-- 
2.43.0


From f921bbbec3f18daa2e959d2243687aa044f79a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 113/121] fix: an item of a vector can be inserted in the
 vector itself

---
 FCollada/FMath/FMArray.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/FCollada/FMath/FMArray.h b/FCollada/FMath/FMArray.h
index 9f7af13..9170db0 100644
--- a/FCollada/FMath/FMArray.h
+++ b/FCollada/FMath/FMArray.h
@@ -49,6 +49,11 @@ namespace fm
 		size_t sized; /**< The number of values contained in the vector. */
 		T* heapBuffer; /**< The heap buffer that contains the values. */
 
+		/** Retrieves whether an item lies within the list.
+			@param item An item.
+			@return Whether the item is one of the values of the list. */
+		inline bool IsWithin(const T& item) const { return &item >= heapBuffer && &item < heapBuffer + sized; }
+
 	public:
 		/** The basic list iterator. */
 		typedef T* iterator;
@@ -279,6 +284,13 @@ namespace fm
 			@param value The value to assign to the new entries in the list. */
 		void resize(size_t count, const T& value)
 		{
+			if (IsWithin(value))
+			{
+				// The value is in this list: it moves during the allocation.
+				T copy(value);
+				resize(count, copy);
+				return;
+			}
 			reserve(count);
 			T* it = end();
 
@@ -377,6 +389,12 @@ namespace fm
 		iterator insert(iterator it, const T& item)
 		{
 			FUAssert(it >= begin() && it <= end(), return it);
+			if (IsWithin(item))
+			{
+				// The item is in this list: it moves during the insertion.
+				T copy(item);
+				return insert(it, copy);
+			}
 			if (sized == reserved)
 			{
 				size_t offset = it - begin();
@@ -460,6 +478,13 @@ namespace fm
 			if (count > 0)
 			{
 				FUAssert(it >= begin() && it <= end(), return);
+				if (!noInit && IsWithin(item))
+				{
+					// The item is in this list: it moves during the insertion.
+					T copy(item);
+					insert(it, count, copy);
+					return;
+				}
 				if (sized + count > reserved)
 				{
 					size_t offset = it - begin();
-- 
2.43.0


From 714685b105a3748850473cd5bb9824fcc5b9dc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 114/121] fix: more than a hundred wanted sub-identifiers of
 the same name all get one

---
 FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
index 55340be..20cc1dc 100644
--- a/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
+++ b/FColladaPlugins/FArchiveXML/FAXColladaWriter.cpp
@@ -391,7 +391,7 @@ namespace FUDaeWriter
 		}
 
 		// Generate new sids with an incremental counter.
-		for (uint32 counter = 2; counter < 100; ++counter)
+		for (uint32 counter = 2; ; ++counter)
 		{
 			FUSStringBuilder builder(wantedSid); builder.append(counter);
 			existingNode = FindHierarchyChildBySid(parentNode, builder.ToCharPtr());
@@ -401,7 +401,6 @@ namespace FUDaeWriter
 				return builder.ToString();
 			}
 		}
-		return emptyString;
 	}
 
 	void AddNodeSid(xmlNode* node, fm::string& subId)
-- 
2.43.0


From 2e409e295689f6d3b1b5e971d6110926aa8380de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 115/121] fix: the extra or asset of a library without entities
 is saved for every library

---
 FColladaPlugins/FArchiveXML/FArchiveXML.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
index 46458c6..880f1e4 100644
--- a/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
+++ b/FColladaPlugins/FArchiveXML/FArchiveXML.cpp
@@ -861,6 +861,13 @@ bool FArchiveXML::Import(FCDocument* theDocument, xmlNode* colladaNode)
 }
 
 
+// A library without entities may still hold an <extra> or an <asset>.
+template <class T>
+static bool LibraryHasContent(const FCDLibrary<T>* library)
+{
+	return !library->IsEmpty() || library->GetExtra()->HasContent() || library->GetAsset() != NULL;
+}
+
 bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 {
 	bool status = true;
@@ -880,7 +887,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 
 		// Record the animation library. This library is built at the end, but should appear before the <scene> element.
 		xmlNode* animationLibraryNode = NULL;
-		if (!theDocument->GetAnimationLibrary()->IsEmpty())
+		if (LibraryHasContent(theDocument->GetAnimationLibrary()))
 		{
 			animationLibraryNode = AddChild(colladaNode, DAE_LIBRARY_ANIMATION_ELEMENT);
 		}
@@ -898,7 +905,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 #undef CLEAN_LIBRARY_SUB_IDS
 
 		// Export the libraries
-#define EXPORT_LIBRARY(memberName, daeElementName) if (!(memberName)->IsEmpty() || (memberName)->GetExtra()->HasContent()) { \
+#define EXPORT_LIBRARY(memberName, daeElementName) if (LibraryHasContent(memberName)) { \
 	xmlNode* libraryNode = AddChild(colladaNode, daeElementName); \
 	FArchiveXML::WriteLibrary(memberName, libraryNode); }
 
@@ -944,7 +951,7 @@ bool FArchiveXML::ExportDocument(FCDocument* theDocument, xmlNode* colladaNode)
 		}
 
 		// Export the extra libraries
-		if (theDocument->GetEmitterLibrary()->GetEntityCount() > 0)
+		if (LibraryHasContent(theDocument->GetEmitterLibrary()))
 		{
 			xmlNode* typedExtraNode = AddChild(colladaNode, DAE_EXTRA_ELEMENT);
 			AddAttribute(typedExtraNode, DAE_TYPE_ATTRIBUTE, DAEFC_LIBRARIES_TYPE);
-- 
2.43.0


From 5e82d97961de3df1123865996804eed5c1198983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 116/121] fix: a clone of a polygons set has the primitive
 type, the inputs and the extra of its original

---
 FCollada/FCDocument/FCDGeometryPolygons.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/FCollada/FCDocument/FCDGeometryPolygons.cpp b/FCollada/FCDocument/FCDGeometryPolygons.cpp
index 16a7a14..9171048 100644
--- a/FCollada/FCDocument/FCDGeometryPolygons.cpp
+++ b/FCollada/FCDocument/FCDGeometryPolygons.cpp
@@ -299,6 +299,7 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	if (clone == NULL) return NULL;
 
 	// Clone the miscellaneous information.
+	clone->primitiveType = primitiveType;
 	clone->materialSemantic = materialSemantic;
 	clone->faceVertexCounts = faceVertexCounts;
 	clone->faceOffset = faceOffset;
@@ -310,6 +311,7 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 	// Clone the geometry inputs
 	// Note that the vertex source inputs are usually created by default.
 	size_t inputCount = inputs.size();
+	clone->inputs.clear();
 	clone->inputs.reserve(inputCount);
 	for (size_t i = 0; i < inputCount; ++i)
 	{
@@ -329,12 +331,9 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 			cloneSource = (*it).second;
 		}
 
-		// Retrieve or create the input to clone.
-		FCDGeometryPolygonsInput* input = clone->FindInput(cloneSource);
-		if (input == NULL)
-		{
-			input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
-		}
+		// Create the cloned input. There may be many inputs for one source.
+		if (cloneSource == NULL) continue;
+		FCDGeometryPolygonsInput* input = clone->AddInput(cloneSource, inputs[i]->GetOffset());
 
 		// Clone the input information.
 		if (inputs[i]->OwnsIndices())
@@ -344,5 +343,6 @@ FCDGeometryPolygons* FCDGeometryPolygons::Clone(FCDGeometryPolygons* clone, cons
 		input->SetSet(inputs[i]->GetSet());
 	}
 
+	if (extra != NULL) extra->Clone(clone->GetExtra());
 	return clone;
 }
-- 
2.43.0


From 84d4b2930d125a5348c8ca6bbadb0009656dac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 117/121] fix: a clone of an effect has the platform, flags and
 parameter references of its original

---
 FCollada/FCDocument/FCDEffectProfileFX.cpp | 1 +
 FCollada/FCDocument/FCDEffectStandard.cpp  | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEffectProfileFX.cpp b/FCollada/FCDocument/FCDEffectProfileFX.cpp
index c474bfe..035b866 100644
--- a/FCollada/FCDocument/FCDEffectProfileFX.cpp
+++ b/FCollada/FCDocument/FCDEffectProfileFX.cpp
@@ -82,6 +82,7 @@ FCDEffectProfile* FCDEffectProfileFX::Clone(FCDEffectProfile* _clone) const
 	if (clone != NULL)
 	{
 		clone->type = type;
+		clone->platform = platform;
 
 		// Clone the codes: needs to happen before the techniques are cloned.
 		clone->codes.reserve(codes.size());
diff --git a/FCollada/FCDocument/FCDEffectStandard.cpp b/FCollada/FCDocument/FCDEffectStandard.cpp
index 1d497c4..ac913c9 100644
--- a/FCollada/FCDocument/FCDEffectStandard.cpp
+++ b/FCollada/FCDocument/FCDEffectStandard.cpp
@@ -259,8 +259,10 @@ FCDEffectProfile* FCDEffectStandard::Clone(FCDEffectProfile* _clone) const
 			}
 		}
 		clone->transparencyMode = transparencyMode;
+		clone->isReflective = isReflective;
+		clone->isRefractive = isRefractive;
 
-#define CLONE_ANIMATED(value) clone->value->SetValue(value->GetValue()); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
+#define CLONE_ANIMATED(value) value->FCDEffectParameter::Clone(clone->value); clone->value->SetValue(value->GetValue()); if (value->GetValue().IsAnimated()) value->GetValue().GetAnimated()->Clone(clone->value->GetValue().GetAnimated());
 
 		CLONE_ANIMATED(emissionColor); CLONE_ANIMATED(emissionFactor); clone->isEmissionFactor = isEmissionFactor;
 		CLONE_ANIMATED(translucencyColor); CLONE_ANIMATED(translucencyFactor);
-- 
2.43.0


From 84d3c08646d9bde6b46523db9203d9a3626258b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 118/121] fix: the samplers and textures of a cloned effect use
 the cloned surfaces and samplers

---
 FCollada/FCDocument/FCDEffect.cpp             | 20 ++++++++------
 .../FCDocument/FCDEffectParameterSampler.cpp  |  6 +++++
 .../FCDocument/FCDEffectParameterSampler.h    | 26 +++++++++++++++++++
 .../FCDocument/FCDEffectParameterSurface.cpp  |  1 +
 FCollada/FCDocument/FCDEffectProfile.cpp      |  8 ++++++
 FCollada/FCDocument/FCDEffectTechnique.cpp    | 13 ++++++++++
 FCollada/FCDocument/FCDTexture.cpp            | 16 +++++++++++-
 7 files changed, 81 insertions(+), 9 deletions(-)

diff --git a/FCollada/FCDocument/FCDEffect.cpp b/FCollada/FCDocument/FCDEffect.cpp
index 9fe3c65..8cea3c5 100644
--- a/FCollada/FCDocument/FCDEffect.cpp
+++ b/FCollada/FCDocument/FCDEffect.cpp
@@ -19,6 +19,7 @@
 #include "FCDocument/FCDEffectProfileFX.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDImage.h"
 
@@ -101,20 +102,23 @@ FCDEntity* FCDEffect::Clone(FCDEntity* _clone, bool cloneChildren) const
 
 	if (clone != NULL)
 	{
-		// Clone the effect profiles
-		for (const FCDEffectProfile** itR = profiles.begin(); itR != profiles.end(); ++itR)
-		{
-			FCDEffectProfile* clonedProfile = clone->AddProfile((*itR)->GetType());
-			(*itR)->Clone(clonedProfile);
-		}
-
-		// Clone the effect parameters
+		// Clone the effect parameters: needs to happen before the profiles are cloned.
 		size_t parameterCount = parameters.size();
 		for (size_t p = 0; p < parameterCount; ++p)
 		{
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
 		}
+
+		// The cloned samplers must use the cloned surfaces.
+		FCDEffectParameterSampler::RelinkClones(this, clone, this, clone);
+
+		// Clone the effect profiles
+		for (const FCDEffectProfile** itR = profiles.begin(); itR != profiles.end(); ++itR)
+		{
+			FCDEffectProfile* clonedProfile = clone->AddProfile((*itR)->GetType());
+			(*itR)->Clone(clonedProfile);
+		}
 	}
 	return _clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.cpp b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
index c6f07ce..0ccc62b 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.cpp
@@ -74,6 +74,12 @@ FCDEffectParameter* FCDEffectParameterSampler::Clone(FCDEffectParameter* _clone)
 	{
 		clone->surface = const_cast<FCDEffectParameterSurface*>((const FCDEffectParameterSurface*)(surface));
 		clone->samplerType = samplerType;
+		clone->wrap_s = wrap_s;
+		clone->wrap_t = wrap_t;
+		clone->wrap_p = wrap_p;
+		clone->minFilter = minFilter;
+		clone->magFilter = magFilter;
+		clone->mipFilter = mipFilter;
 	}
 	return _clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectParameterSampler.h b/FCollada/FCDocument/FCDEffectParameterSampler.h
index b982c96..e3da730 100644
--- a/FCollada/FCDocument/FCDEffectParameterSampler.h
+++ b/FCollada/FCDocument/FCDEffectParameterSampler.h
@@ -132,6 +132,32 @@ public:
 		This function is used during the flattening of materials.
 		@param target The target parameter to overwrite. */
 	virtual void Overwrite(FCDEffectParameter* target);
+
+	/** [INTERNAL] Makes the cloned samplers use the cloned surfaces.
+		The effect parameters must have been cloned already.
+		@param original The object that holds the original samplers.
+		@param clone The object that holds the cloned samplers.
+		@param originalSurfaces The object that holds the original surfaces.
+		@param cloneSurfaces The object that holds the cloned surfaces. */
+	template <class Owner, class SurfaceOwner>
+	static void RelinkClones(const Owner* original, Owner* clone, const SurfaceOwner* originalSurfaces, SurfaceOwner* cloneSurfaces)
+	{
+		size_t samplerCount = original->GetEffectParameterCount(), surfaceCount = originalSurfaces->GetEffectParameterCount();
+		if (clone->GetEffectParameterCount() < samplerCount || cloneSurfaces->GetEffectParameterCount() < surfaceCount) return;
+		size_t firstSampler = clone->GetEffectParameterCount() - samplerCount, firstSurface = cloneSurfaces->GetEffectParameterCount() - surfaceCount;
+		for (size_t p = 0; p < samplerCount; ++p)
+		{
+			if (!original->GetEffectParameter(p)->HasType(FCDEffectParameterSampler::GetClassType())) continue;
+			FCDEffectParameterSampler* sampler = (FCDEffectParameterSampler*) clone->GetEffectParameter(firstSampler + p);
+			for (size_t s = 0; s < surfaceCount; ++s)
+			{
+				const FCDEffectParameter* surface = originalSurfaces->GetEffectParameter(s);
+				if (surface->GetType() != FCDEffectParameter::SURFACE || surface != (const FCDEffectParameter*) sampler->GetSurface()) continue;
+				sampler->SetSurface((FCDEffectParameterSurface*) cloneSurfaces->GetEffectParameter(firstSurface + s));
+				break;
+			}
+		}
+	}
 };
 
 #endif // _FCD_EFFECT_PARAMETER_SAMPLER_H_
diff --git a/FCollada/FCDocument/FCDEffectParameterSurface.cpp b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
index 11d201c..72452ba 100644
--- a/FCollada/FCDocument/FCDEffectParameterSurface.cpp
+++ b/FCollada/FCDocument/FCDEffectParameterSurface.cpp
@@ -160,6 +160,7 @@ FCDEffectParameter* FCDEffectParameterSurface::Clone(FCDEffectParameter* _clone)
 			initMethod->Clone(clone->initMethod);
 		}
 
+		clone->type = type;
 		clone->size = size;
 		clone->viewportRatio = viewportRatio;
 		clone->mipLevelCount = mipLevelCount;
diff --git a/FCollada/FCDocument/FCDEffectProfile.cpp b/FCollada/FCDocument/FCDEffectProfile.cpp
index ee9389d..9ea6d10 100644
--- a/FCollada/FCDocument/FCDEffectProfile.cpp
+++ b/FCollada/FCDocument/FCDEffectProfile.cpp
@@ -12,6 +12,7 @@
 #include "FCDocument/FCDEffectProfile.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDExtra.h"
 #include "FCDocument/FCDImage.h"
 #include "FCDocument/FCDLibrary.h"
@@ -46,6 +47,13 @@ FCDEffectProfile* FCDEffectProfile::Clone(FCDEffectProfile* clone) const
 		FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 		parameters[p]->Clone(parameter);
 	}
+
+	// The cloned samplers must use the cloned surfaces: of this profile or of its effect.
+	FCDEffectParameterSampler::RelinkClones(this, clone, this, clone);
+	if (parent != NULL && clone->parent != NULL && clone->parent != parent)
+	{
+		FCDEffectParameterSampler::RelinkClones(this, clone, (const FCDEffect*) parent, clone->parent);
+	}
 	extra->Clone(clone->extra);
 	return clone;
 }
diff --git a/FCollada/FCDocument/FCDEffectTechnique.cpp b/FCollada/FCDocument/FCDEffectTechnique.cpp
index f434391..ca8efff 100644
--- a/FCollada/FCDocument/FCDEffectTechnique.cpp
+++ b/FCollada/FCDocument/FCDEffectTechnique.cpp
@@ -14,6 +14,7 @@
 #include "FCDocument/FCDEffectProfileFX.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEffectTechnique.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDImage.h"
@@ -71,6 +72,18 @@ FCDEffectTechnique* FCDEffectTechnique::Clone(FCDEffectTechnique* clone) const
 		parameters[p]->Clone(parameter);
 	}
 
+	// The cloned samplers must use the cloned surfaces: of this technique, of its profile or of its effect.
+	FCDEffectParameterSampler::RelinkClones(this, clone, this, clone);
+	if (parent != NULL && clone->parent != NULL && clone->parent != parent)
+	{
+		FCDEffectParameterSampler::RelinkClones(this, clone, (const FCDEffectProfile*) parent, (FCDEffectProfile*) clone->parent);
+		FCDEffect* cloneEffect = clone->parent->GetParent();
+		if (cloneEffect != NULL && cloneEffect != parent->GetParent())
+		{
+			FCDEffectParameterSampler::RelinkClones(this, clone, ((const FCDEffectProfile*) parent)->GetParent(), cloneEffect);
+		}
+	}
+
 	// Clone the codes: need to happen before the passes are cloned
 	clone->codes.reserve(codes.size());
 	for (const FCDEffectCode** itC = codes.begin(); itC != codes.end(); ++itC)
diff --git a/FCollada/FCDocument/FCDTexture.cpp b/FCollada/FCDocument/FCDTexture.cpp
index 7e13144..580ce2c 100644
--- a/FCollada/FCDocument/FCDTexture.cpp
+++ b/FCollada/FCDocument/FCDTexture.cpp
@@ -126,7 +126,21 @@ FCDTexture* FCDTexture::Clone(FCDTexture* clone) const
 
 	if (sampler != NULL)
 	{
-		sampler->Clone(clone->GetSampler());
+		// When the profile or the effect was cloned, then so was the sampler: use that one.
+		FCDEffectParameter* parameter = NULL;
+		if (clone->parent != parent && clone->parent != NULL && !sampler->GetReference().empty())
+		{
+			parameter = FCDEffectTools::FindEffectParameterByReference(clone->parent, sampler->GetReference(), true);
+			if (parameter == NULL) parameter = FCDEffectTools::FindEffectParameterByReference(clone->parent->GetParent(), sampler->GetReference(), true);
+		}
+		if (clone->sampler == NULL && parameter != NULL && parameter->HasType(FCDEffectParameterSampler::GetClassType()))
+		{
+			clone->sampler = (FCDEffectParameterSampler*) parameter;
+		}
+		else
+		{
+			sampler->Clone(clone->GetSampler());
+		}
 	}
 
 	return clone;
-- 
2.43.0


From b4b90a5f71aa7438bc7f7bb4a189b9ce91a8805c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 119/121] fix: a clone of a material has the cloned effect and
 the technique hints

---
 FCollada/FCDocument/FCDMaterial.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/FCollada/FCDocument/FCDMaterial.cpp b/FCollada/FCDocument/FCDMaterial.cpp
index c7708de..547f417 100644
--- a/FCollada/FCDocument/FCDMaterial.cpp
+++ b/FCollada/FCDocument/FCDMaterial.cpp
@@ -18,6 +18,7 @@
 #include "FCDocument/FCDEffectTools.h"
 #include "FCDocument/FCDEffectParameter.h"
 #include "FCDocument/FCDEffectParameterFactory.h"
+#include "FCDocument/FCDEffectParameterSampler.h"
 #include "FCDocument/FCDEntityReference.h"
 #include "FCDocument/FCDLibrary.h"
 #include "FCDocument/FCDMaterial.h"
@@ -92,6 +93,7 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 				clone->ownsEffect = true;
 				FCDEffect* clonedEffect = clone->GetDocument()->GetEffectLibrary()->AddEntity();
 				_effect->Clone(clonedEffect, cloneChildren);
+				clone->SetEffect(clonedEffect);
 			}
 			else
 			{
@@ -106,6 +108,12 @@ FCDEntity* FCDMaterial::Clone(FCDEntity* _clone, bool cloneChildren) const
 			FCDEffectParameter* parameter = clone->AddEffectParameter(parameters[p]->GetType());
 			parameters[p]->Clone(parameter);
 		}
+
+		// The cloned samplers must use the cloned surfaces.
+		FCDEffectParameterSampler::RelinkClones(this, clone, this, clone);
+
+		// Clone the technique hints
+		clone->techniqueHints = techniqueHints;
 	}
 
 	return _clone;
-- 
2.43.0


From 147e549ee550cdf19083fbebe563671374ba6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 120/121] fix: a clone of an entity instance has the name,
 sub-id, extra and unresolved URI of its original

---
 FCollada/FCDocument/FCDEntityInstance.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/FCollada/FCDocument/FCDEntityInstance.cpp b/FCollada/FCDocument/FCDEntityInstance.cpp
index d884bac..d15faf8 100644
--- a/FCollada/FCDocument/FCDEntityInstance.cpp
+++ b/FCollada/FCDocument/FCDEntityInstance.cpp
@@ -149,7 +149,13 @@ FCDEntityInstance* FCDEntityInstance::Clone(FCDEntityInstance* clone) const
 		clone = new FCDEntityInstance(const_cast<FCDocument*>(GetDocument()), const_cast<FCDSceneNode*>(parent), entityType);
 	}
 
-	clone->SetEntity(const_cast<FCDEntity*>(entityReference->GetEntity()));
+	FCDEntity* entity = const_cast<FCDEntity*>(entityReference->GetEntity());
+	if (entity != NULL) clone->SetEntity(entity);
+	else clone->SetEntityUri(GetEntityUri());
+
+	clone->name = name;
+	clone->wantedSubId = wantedSubId;
+	if (extra != NULL) extra->Clone(clone->GetExtra());
 	return clone;
 }
 
-- 
2.43.0


From fd5c48a33a286bdef9ccdd37a9a0a7f73df36f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:03 +0000
Subject: [PATCH 121/121] fix: clones of planes, rigid body parameters and
 shapes have the distance and the density of their originals

---
 FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp  | 1 +
 FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp | 3 +++
 FCollada/FCDocument/FCDPhysicsShape.cpp               | 1 +
 3 files changed, 5 insertions(+)

diff --git a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
index 507377e..84eb40f 100644
--- a/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
+++ b/FCollada/FCDocument/FCDPhysicsAnalyticalGeometry.cpp
@@ -87,6 +87,7 @@ FCDEntity* FCDPASPlane::Clone(FCDEntity* _clone, bool cloneChildren) const
 	if (clone != NULL)
 	{
 		clone->normal = normal;
+		clone->d = d;
 	}
 	return _clone;
 }
diff --git a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
index 03f6fa6..bbaa2e7 100644
--- a/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
+++ b/FCollada/FCDocument/FCDPhysicsRigidBodyParameters.cpp
@@ -77,6 +77,9 @@ void FCDPhysicsRigidBodyParameters::CopyFrom(const FCDPhysicsRigidBodyParameters
 
 	dynamic = original.dynamic;
 	mass = original.mass;
+	density = original.density;
+	isDensityMoreAccurate = original.isDensityMoreAccurate;
+	isInertiaAccurate = original.isInertiaAccurate;
 	inertia = original.inertia;
 	massFrameTranslate = original.massFrameTranslate;
 	massFrameOrientation = original.massFrameOrientation;
diff --git a/FCollada/FCDocument/FCDPhysicsShape.cpp b/FCollada/FCDocument/FCDPhysicsShape.cpp
index 30e27a4..7c51d75 100644
--- a/FCollada/FCDocument/FCDPhysicsShape.cpp
+++ b/FCollada/FCDocument/FCDPhysicsShape.cpp
@@ -122,6 +122,7 @@ FCDPhysicsShape* FCDPhysicsShape::Clone(FCDPhysicsShape* clone) const
 
 	if (mass != NULL) clone->SetMass(*mass);
 	if (density != NULL) clone->SetDensity(*density);
+	clone->SetDensityMoreAccurate(isDensityMoreAccurate);
 	clone->SetHollow(hollow);
 
 	// Clone the material instance
-- 
2.43.0

