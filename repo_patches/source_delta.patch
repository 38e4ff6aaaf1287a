From 379444063248292971523a95b8bdf670cfc8dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 01/19] fix: do not hold the place locked while waiting for on
 enter actions to be unblocked

An input arriving while a transition that requires no actions in execution was being evaluated
waited with the place locked, and the evaluation waited for the place.
---
 PTN_Engine/Place.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 27a6f7b..277676e 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -61,17 +61,20 @@ string Place::getName() const
 void Place::enterPlace(const size_t tokens)
 {
 	unique_lock guard(m_mutex);
-	increaseNumberOfTokens(tokens);
-	if (m_onEnterAction == nullptr)
-	{
-		return;
-	}
-	while (m_blockStartingOnEnterActions)
+	while (m_onEnterAction != nullptr && m_blockStartingOnEnterActions)
 	{
+		// Release the place while waiting: the transition that is blocking it needs to read its tokens.
 		// TO DO make this wait period configurable
 		// add a max wait time after which an exception
 		// is thrown.
+		guard.unlock();
 		this_thread::sleep_for(100ms);
+		guard.lock();
+	}
+	increaseNumberOfTokens(tokens);
+	if (m_onEnterAction == nullptr)
+	{
+		return;
 	}
 	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
-- 
2.43.0


From c04206f142792fb201eb7870538528783d1f22bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 02/19] fix: unblock on enter actions before entering the
 destination places and on exceptions

A transition requiring no actions in execution hung when one of its activation places was also a
destination place with an on enter action, and left its activation places blocked for good when a
condition or an action threw.
---
 PTN_Engine/Transition.cpp | 53 +++++++++++++++++++++++++--------------
 PTN_Engine/Transition.h   |  5 ++--
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4ac0a5f..4b4570c 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -32,6 +32,30 @@ namespace ptne
 {
 using namespace std;
 
+//! Blocks the start of the on enter actions of the activation places while it exists.
+class Transition::OnEnterActionsBlocker final
+{
+public:
+	explicit OnEnterActionsBlocker(const Transition &transition)
+	: m_transition(transition)
+	{
+		m_transition.blockStartingOnEnterActions(true);
+	}
+
+	~OnEnterActionsBlocker()
+	{
+		m_transition.blockStartingOnEnterActions(false);
+	}
+
+	OnEnterActionsBlocker(const OnEnterActionsBlocker &) = delete;
+	OnEnterActionsBlocker(OnEnterActionsBlocker &&) = delete;
+	OnEnterActionsBlocker &operator=(const OnEnterActionsBlocker &) = delete;
+	OnEnterActionsBlocker &operator=(OnEnterActionsBlocker &&) = delete;
+
+private:
+	const Transition &m_transition;
+};
+
 Transition::~Transition() = default;
 
 Transition::Transition(const string &name,
@@ -80,23 +104,20 @@ string Transition::getName() const
 bool Transition::execute()
 {
 	unique_lock guard(m_mutex);
-	bool result = false;
 
-	blockStartingOnEnterActions(true);
-
-	if (!isActive())
-	{
-		result = false;
-	}
-	else
 	{
-		performTransit();
-		result = true;
-	}
+		const OnEnterActionsBlocker onEnterActionsBlocker(*this);
 
-	blockStartingOnEnterActions(false);
+		if (!isActive())
+		{
+			return false;
+		}
+		exitActivationPlaces();
+	}
 
-	return result;
+	// The activation places can also be destination places, their on enter actions must be able to start.
+	enterDestinationPlaces();
+	return true;
 }
 
 bool Transition::isEnabled() const
@@ -363,12 +384,6 @@ bool Transition::noActionsInExecution() const
 	return true;
 }
 
-void Transition::performTransit() const
-{
-	exitActivationPlaces();
-	enterDestinationPlaces();
-}
-
 void Transition::exitActivationPlaces() const
 {
 	for (const Arc &activationArc : m_activationArcs)
diff --git a/PTN_Engine/Transition.h b/PTN_Engine/Transition.h
index 41f8146..bc530cc 100755
--- a/PTN_Engine/Transition.h
+++ b/PTN_Engine/Transition.h
@@ -111,6 +111,8 @@ public:
 	void removeArc(const std::shared_ptr<Place> &place, const ArcProperties::Type type);
 
 private:
+	class OnEnterActionsBlocker;
+
 	//! Block/unblock activation places from starting any on enter actions.
 	void blockStartingOnEnterActions(const bool value) const;
 
@@ -156,9 +158,6 @@ private:
 	//!
 	bool noActionsInExecution() const;
 
-	//! Moves the tokens from the inputs to the outputs.
-	void performTransit() const;
-
 	std::vector<Arc> m_activationArcs;
 
 	//! Pointers to the controller's functions that evaluate if the transition can be fired.
-- 
2.43.0


From 27314bb59db470e6fe12790f7895481dccf12c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 03/19] fix: keep the count of actions in execution balanced
 when an action throws

Otherwise transitions requiring no actions in execution could never fire again.
---
 PTN_Engine/Executor/SingleThreadExecutor.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/Executor/SingleThreadExecutor.cpp b/PTN_Engine/Executor/SingleThreadExecutor.cpp
index 09e3d7d..3a9053c 100644
--- a/PTN_Engine/Executor/SingleThreadExecutor.cpp
+++ b/PTN_Engine/Executor/SingleThreadExecutor.cpp
@@ -27,7 +27,15 @@ using namespace std;
 void SingleThreadExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	action();
+	try
+	{
+		action();
+	}
+	catch (...)
+	{
+		--actionsInExecution;
+		throw;
+	}
 	--actionsInExecution;
 }
 
-- 
2.43.0


From 2a655db19e0e907b47f856e575e069142a682946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 04/19] fix: adding or removing a bidirectional arc changes
 both arcs or none

When only the destination arc could not be added or removed, the exception left the activation
arc changed.
---
 PTN_Engine/Transition.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index 4b4570c..e892b22 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -239,7 +239,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 {
 	unique_lock guard(m_mutex);
 
-	auto addArcTo = [&place, weight](auto &placesContainer)
+	auto checkNotIn = [&place](const auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
@@ -248,6 +248,11 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 		{
 			throw PTN_Exception("Arc already exists");
 		}
+	};
+
+	auto addArcTo = [&place, weight, &checkNotIn](auto &placesContainer)
+	{
+		checkNotIn(placesContainer);
 		placesContainer.push_back({ place, weight });
 	};
 
@@ -265,6 +270,7 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	}
 	case BIDIRECTIONAL:
 	{
+		checkNotIn(m_destinationArcs);
 		addArcTo(m_activationArcs);
 		addArcTo(m_destinationArcs);
 		break;
@@ -286,22 +292,22 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 {
 	unique_lock guard(m_mutex);
 
-	auto removePlaceFrom = [&place](auto &placesContainer)
+	auto findPlaceIn = [&place](auto &placesContainer)
 	{
 		auto sameNameAs = [&place](const auto &arc)
 		{ return lockWeakPtr(arc.place)->getName() == place->getName(); };
 
 		auto it = ranges::find_if(placesContainer, sameNameAs);
-		if (it != placesContainer.cend())
-		{
-			placesContainer.erase(it);
-		}
-		else
+		if (it == placesContainer.cend())
 		{
 			throw PTN_Exception("Cannot remove palce " + place->getName());
 		}
+		return it;
 	};
 
+	auto removePlaceFrom = [&findPlaceIn](auto &placesContainer)
+	{ placesContainer.erase(findPlaceIn(placesContainer)); };
+
 	using enum ArcProperties::Type;
 	switch (type)
 	{
@@ -316,6 +322,7 @@ void Transition::removeArc(const shared_ptr<Place> &place, const ArcProperties::
 	}
 	case BIDIRECTIONAL:
 	{
+		findPlaceIn(m_destinationArcs);
 		removePlaceFrom(m_activationArcs);
 		removePlaceFrom(m_destinationArcs);
 		break;
-- 
2.43.0


From a5a4c9f1884827332f573014c6dc593b7e13fbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 05/19] fix: exporting again with the same exporter writes the
 current net, and write failures throw

The document kept growing, so that importing the file gave the net of the first export. A file that
could not be written was silently ignored.
---
 PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
index bc4127d..458f291 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileExporter.cpp
@@ -18,6 +18,7 @@
 
 #include "XML/XML_FileExporter.h"
 #include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/PTN_Exception.h"
 #include <pugixml.hpp>
 #include <vector>
 
@@ -31,6 +32,7 @@ XML_FileExporter::~XML_FileExporter() = default;
 void XML_FileExporter::_export(const PTN_Engine &ptnEngine, const string &filePath)
 {
 	m_filePath = filePath;
+	m_document.reset();
 	m_rootNode = m_document.append_child("PTN-Engine");
 	m_rootNode.append_attribute("version").set_value("3.0");
 	m_rootNode.append_attribute("format").set_value("1");
@@ -100,7 +102,10 @@ void XML_FileExporter::exportTransition(const TransitionProperties &transitionPr
 
 void XML_FileExporter::saveFile() const
 {
-	m_document.save_file(m_filePath.c_str());
+	if (!m_document.save_file(m_filePath.c_str()))
+	{
+		throw PTN_Exception("Could not write to file " + m_filePath);
+	}
 }
 
 } // namespace ptne
-- 
2.43.0


From fa6e012bcdc1af3654c2ff739dab037d07946cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 06/19] fix: import token counts and weights of 2^63 and more,
 reject malformed numbers

Token counts and inline weights were read with atol, which saturates at 2^63-1 and reads garbage
as 0, and trailing garbage in a weight was ignored.
---
 .../XML/src/XML/XML_FileImporter.cpp          | 29 ++++++++++---------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
index 4061133..d48ca62 100644
--- a/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
+++ b/PTN_Engine/ImportExport/XML/src/XML/XML_FileImporter.cpp
@@ -29,6 +29,19 @@ using namespace ptne;
 
 namespace
 {
+size_t toSize_t(const string &v)
+{
+	size_t result{};
+	const auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
+
+	if (ec != errc() || ptr != v.data() + v.size())
+	{
+		throw PTN_Exception("Could not convert from string to int");
+	}
+
+	return result;
+}
+
 string getAttributeValue(const xml_node &node, const string &attrName)
 {
 	return node.attribute(attrName.c_str()).value();
@@ -54,7 +67,7 @@ collectArcAttributes(const xml_node &transition, const string &attribute, const
 		const string weightStr(activationCondition.attribute("weight").value());
 		if (!string(activationCondition.attribute("weight").value()).empty())
 		{
-			weight = static_cast<size_t>(atol(weightStr.c_str()));
+			weight = toSize_t(weightStr);
 		}
 
 		arcsProperties.emplace_back(weight, activationCondition.attribute("name").value(), activationConditionName,
@@ -90,17 +103,7 @@ bool getNodeValue(const string &nodeName, const xml_node &xmlNode)
 template <>
 size_t getNodeValue(const string &nodeName, const xml_node &xmlNode)
 {
-	const string v = xmlNode.child(nodeName.c_str()).attribute("value").value();
-
-	size_t result{};
-	auto [ptr, ec] = from_chars(v.data(), v.data() + v.size(), result);
-
-	if (ec != errc())
-	{
-		throw PTN_Exception("Could not convert from string to int");
-	}
-
-	return result;
+	return toSize_t(xmlNode.child(nodeName.c_str()).attribute("value").value());
 }
 
 } // namespace
@@ -138,7 +141,7 @@ vector<PlaceProperties> XML_FileImporter::importPlaces() const
 		size_t numberOfTokens = 0;
 		if (const string numberOfTokensStr = getAttributeValue(place, "tokens"); !numberOfTokensStr.empty())
 		{
-			numberOfTokens = static_cast<size_t>(atol(numberOfTokensStr.c_str()));
+			numberOfTokens = toSize_t(numberOfTokensStr);
 		}
 
 		placeProperties.name = getAttributeValue(place, "name");
-- 
2.43.0


From ee08f636f28c5f7f26b5666726e0a152314ae456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 07/19] fix: an action still pending or running keeps its place
 alive after clearNet or destruction

The asynchronous executors captured the action and the counter of the place by
reference, so clearing the net or destroying the engine while actions were
pending let them run on destroyed objects.
---
 PTN_Engine/Executor/DetachedExecutor.cpp |  2 +-
 PTN_Engine/Executor/JobQueueExecutor.cpp |  2 +-
 PTN_Engine/Place.cpp                     | 10 ++++++++--
 PTN_Engine/Place.h                       | 11 ++++++++++-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index c7ff828..42afc35 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -28,7 +28,7 @@ using namespace std;
 void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	auto job = [&actionsInExecution, &action]()
+	auto job = [&actionsInExecution, action]()
 	{
 		action();
 		--actionsInExecution;
diff --git a/PTN_Engine/Executor/JobQueueExecutor.cpp b/PTN_Engine/Executor/JobQueueExecutor.cpp
index 51ddaec..a199fa3 100644
--- a/PTN_Engine/Executor/JobQueueExecutor.cpp
+++ b/PTN_Engine/Executor/JobQueueExecutor.cpp
@@ -27,7 +27,7 @@ using namespace std;
 void JobQueueExecutor::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
 {
 	++actionsInExecution;
-	auto f = [&actionsInExecution, &action]()
+	auto f = [&actionsInExecution, action]()
 	{
 		action();
 		--actionsInExecution;
diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 277676e..7ad4b06 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -76,7 +76,7 @@ void Place::enterPlace(const size_t tokens)
 	{
 		return;
 	}
-	lockWeakPtr(m_actionsExecutor)->executeAction(m_onEnterAction, m_onEnterActionsInExecution);
+	executeAction(m_onEnterAction, m_onEnterActionsInExecution);
 }
 
 void Place::exitPlace(const size_t tokens)
@@ -87,7 +87,13 @@ void Place::exitPlace(const size_t tokens)
 	{
 		return;
 	}
-	lockWeakPtr(m_actionsExecutor)->executeAction(m_onExitAction, m_onExitActionsInExecution);
+	executeAction(m_onExitAction, m_onExitActionsInExecution);
+}
+
+void Place::executeAction(const ActionFunction &action, atomic<size_t> &actionsInExecution)
+{
+	lockWeakPtr(m_actionsExecutor)
+	->executeAction([self = weak_from_this().lock(), &action]() { action(); }, actionsInExecution);
 }
 
 void Place::increaseNumberOfTokens(const size_t tokens)
diff --git a/PTN_Engine/Place.h b/PTN_Engine/Place.h
index b07186a..61afee3 100755
--- a/PTN_Engine/Place.h
+++ b/PTN_Engine/Place.h
@@ -21,6 +21,7 @@
 #include "PTN_Engine/PTN_Engine.h"
 #include <atomic>
 #include <functional>
+#include <memory>
 #include <shared_mutex>
 
 namespace ptne
@@ -33,7 +34,7 @@ class IActionsExecutor;
 //!
 //! \brief Implements a place of a Petri net.
 //!
-class Place final
+class Place final : public std::enable_shared_from_this<Place>
 {
 public:
 	using ActionFunction = std::function<void(void)>;
@@ -125,6 +126,14 @@ private:
 	//!
 	void decreaseNumberOfTokens(const size_t tokens = 1);
 
+	//!
+	//! \brief Run an action of this place with the actions executor.
+	//!  Keeps the place, and with it the action and its counter, until the action finished.
+	//! \param action - action of this place.
+	//! \param actionsInExecution - counter of this place for the action.
+	//!
+	void executeAction(const ActionFunction &action, std::atomic<size_t> &actionsInExecution);
+
 	//!
 	//! Increase number of tokens in the place.
 	//! \param tokens Number of tokens to be added. Must be at least 1.
-- 
2.43.0


From 0cf9f09cf35512b41a37ddd8abb3fb681de53250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 08/19] fix: changing the actions thread option does not drop
 pending actions or wait for them

Destroying the previous job queue dropped its queued actions, leaving their
places with actions in execution for good, and waited, holding the engine
locked, for the action in progress, a deadlock if that used the engine.
---
 PTN_Engine/PTN_EngineImp.cpp | 603 ++++++++++++++++++-----------------
 PTN_Engine/PTN_EngineImp.h   | 442 ++++++++++++-------------
 2 files changed, 528 insertions(+), 517 deletions(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index f4429b1..079c864 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -1,298 +1,305 @@
-/*
- * This file is part of PTN Engine
- *
- * Copyright (c) 2017 Eduardo Valgôde
- * Copyright (c) 2021 Kale Evans
- * Copyright (c) 2024 Eduardo Valgôde
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- * http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-#include "PTN_Engine/PTN_EngineImp.h"
-#include "PTN_Engine/Executor/ActionsExecutorFactory.h"
-#include "PTN_Engine/Utilities/LockWeakPtr.h"
-#include <algorithm>
-
-namespace ptne
-{
-using namespace std;
-using enum PTN_Engine::ACTIONS_THREAD_OPTION;
-
-PTN_EngineImp::PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
-: m_actionsThreadOption(actionsThreadOption)
-, m_actionsExecutor(ActionsExecutorFactory::createExecutor(actionsThreadOption))
-, m_eventLoop(*this)
-{
-}
-
-PTN_EngineImp::~PTN_EngineImp()
-{
-	stop();
-}
-
-void PTN_EngineImp::clearInputPlaces()
-{
-	m_places.clearInputPlaces();
-	m_newInputReceived = false;
-}
-
-void PTN_EngineImp::clearNet()
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot clear net while the event loop is running.");
-	}
-	m_transitions.clear();
-	m_places.clear();
-}
-
-void PTN_EngineImp::createTransition(const TransitionProperties &transitionProperties)
-{
-	createTransition(transitionProperties.name, transitionProperties.activationArcs,
-					 transitionProperties.destinationArcs, transitionProperties.inhibitorArcs,
-					 !transitionProperties.additionalConditionsNames.empty() ?
-					 m_conditions.getItems(transitionProperties.additionalConditionsNames) :
-					 createAnonymousConditions(transitionProperties.additionalConditions),
-					 transitionProperties.requireNoActionsInExecution);
-}
-
-void PTN_EngineImp::createPlace(PlaceProperties placeProperties)
-{
-	ActionFunction onEnterAction = placeProperties.onEnterAction;
-	if (!placeProperties.onEnterActionFunctionName.empty())
-	{
-		placeProperties.onEnterAction = m_actions.getItem(placeProperties.onEnterActionFunctionName);
-	}
-
-	ActionFunction onExitAction = placeProperties.onExitAction;
-	if (!placeProperties.onExitActionFunctionName.empty())
-	{
-		placeProperties.onExitAction = m_actions.getItem(placeProperties.onExitActionFunctionName);
-	}
-
-	auto place = make_shared<Place>(placeProperties, m_actionsExecutor);
-	m_places.insert(place);
-}
-
-bool PTN_EngineImp::isEventLoopRunning() const
-{
-	return m_eventLoop.isRunning();
-}
-
-void PTN_EngineImp::stop() noexcept
-{
-	m_eventLoop.stop();
-}
-
-void PTN_EngineImp::registerAction(const string &name, const ActionFunction &action)
-{
-	m_actions.addItem(name, action);
-}
-
-void PTN_EngineImp::registerCondition(const string &name, const ConditionFunction &condition)
-{
-	m_conditions.addItem(name, condition);
-}
-
-size_t PTN_EngineImp::getNumberOfTokens(const string &place) const
-{
-	return m_places.getNumberOfTokens(place);
-}
-
-void PTN_EngineImp::incrementInputPlace(const string &place)
-{
-	m_places.incrementInputPlace(place);
-	m_newInputReceived = true;
-	m_eventLoop.notifyNewEvent();
-}
-
-void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot change actions thread option while the event loop is running.");
-	}
-
-	unique_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
-
-	if (m_actionsThreadOption == actionsThreadOption)
-	{
-		return;
-	}
-
-	m_actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
-	m_actionsThreadOption = actionsThreadOption;
-
-	m_places.setActionsExecutor(m_actionsExecutor);
-}
-
-PTN_Engine::ACTIONS_THREAD_OPTION PTN_EngineImp::getActionsThreadOption() const
-{
-	shared_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
-	return m_actionsThreadOption;
-}
-
-void PTN_EngineImp::printState(ostream &o) const
-{
-	m_places.printState(o);
-}
-
-void PTN_EngineImp::execute(const bool log, ostream &o)
-{
-	m_eventLoop.start(log, o);
-}
-
-bool PTN_EngineImp::executeInt(const bool log, ostream &o)
-{
-	bool firedAtLeastOneTransition = false;
-	setNewInputReceived(false);
-
-	if (log)
-	{
-		printState(o);
-	}
-
-	for (const auto &transition : enabledTransitions())
-	{
-		if (auto enabledTransition = lockWeakPtr(transition))
-		{
-			firedAtLeastOneTransition |= enabledTransition->execute();
-		}
-	}
-	return firedAtLeastOneTransition;
-}
-
-bool PTN_EngineImp::getNewInputReceived() const
-{
-	return m_newInputReceived;
-}
-
-void PTN_EngineImp::setNewInputReceived(const bool newInputReceived)
-{
-	m_newInputReceived = newInputReceived;
-}
-
-vector<weak_ptr<Transition>> PTN_EngineImp::enabledTransitions() const
-{
-	return m_transitions.collectEnabledTransitionsRandomly();
-}
-
-void PTN_EngineImp::setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration)
-{
-	m_eventLoop.setSleepDuration(sleepDuration);
-}
-
-PTN_Engine::EventLoopSleepDuration PTN_EngineImp::getEventLoopSleepDuration() const
-{
-	return m_eventLoop.getSleepDuration();
-}
-
-void PTN_EngineImp::addArc(const ArcProperties &arcProperties) const
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot add arc while the event loop is running.");
-	}
-
-	if (!m_places.contains(arcProperties.placeName))
-	{
-		throw PTN_Exception("The place " + arcProperties.placeName +
-							" must already exist in order to link to an arc.");
-	}
-	auto spPlace = m_places.getPlace(arcProperties.placeName);
-
-	if (!m_transitions.contains(arcProperties.transitionName))
-	{
-		throw PTN_Exception("The transition " + arcProperties.transitionName +
-							" must already exist in order to link to an arc.");
-	}
-
-	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
-	spTransition->addArc(spPlace, arcProperties.type, arcProperties.weight);
-}
-
-void PTN_EngineImp::removeArc(const ArcProperties &arcProperties) const
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot remove arc while the event loop is running.");
-	}
-
-	if (!m_places.contains(arcProperties.placeName))
-	{
-		throw PTN_Exception("The place " + arcProperties.placeName +
-							" must already exist in order to unlink an arc.");
-	}
-	auto spPlace = m_places.getPlace(arcProperties.placeName);
-
-	if (!m_transitions.contains(arcProperties.transitionName))
-	{
-		throw PTN_Exception("The transition " + arcProperties.transitionName +
-							" must already exist in order to unlink an arc.");
-	}
-
-	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
-	spTransition->removeArc(spPlace, arcProperties.type);
-}
-
-vector<PlaceProperties> PTN_EngineImp::getPlacesProperties() const
-{
-	return m_places.getPlacesProperties();
-}
-
-vector<TransitionProperties> PTN_EngineImp::getTransitionsProperties() const
-{
-	return m_transitions.getTransitionsProperties();
-}
-
-// Private
-
-void PTN_EngineImp::createTransition(const string &name,
-                                     const vector<ArcProperties> &activationArcs,
-                                     const vector<ArcProperties> &destinationArcs,
-                                     const vector<ArcProperties> &inhibitorArcs,
-                                     const vector<pair<string, ConditionFunction>> &additionalConditions,
-                                     const bool requireNoActionsInExecution)
-{
-	// if a transition with this name already exists in the net, throw an exception
-	if (m_transitions.contains(name))
-	{
-		throw PTN_Exception("Cannot create transition that already exists. Name: " + name);
-	}
-
-	auto getArcsFromArcsProperties = [this](const vector<ArcProperties> &arcProperties)
-	{
-		vector<Arc> arcs;
-		for (const auto &arcProperty : arcProperties)
-		{
-			arcs.emplace_back(m_places.getPlace(arcProperty.placeName), arcProperty.weight);
-		}
-		return arcs;
-	};
-
-	m_transitions.insert(make_shared<Transition>(name, getArcsFromArcsProperties(activationArcs),
-												 getArcsFromArcsProperties(destinationArcs),
-												 getArcsFromArcsProperties(inhibitorArcs), additionalConditions,
-												 requireNoActionsInExecution));
-}
-
-vector<pair<string, ConditionFunction>>
-PTN_EngineImp::createAnonymousConditions(const vector<ConditionFunction> &conditions) const
-{
-	vector<pair<string, ConditionFunction>> anonymousConditionsVector;
-	ranges::transform(conditions, back_inserter(anonymousConditionsVector),
-					  [](const auto &condition) { return pair<string, ConditionFunction>("", condition); });
-	return anonymousConditionsVector;
-}
-
-} // namespace ptne
+/*
+ * This file is part of PTN Engine
+ *
+ * Copyright (c) 2017 Eduardo Valgôde
+ * Copyright (c) 2021 Kale Evans
+ * Copyright (c) 2024 Eduardo Valgôde
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+#include "PTN_Engine/PTN_EngineImp.h"
+#include "PTN_Engine/Executor/ActionsExecutorFactory.h"
+#include "PTN_Engine/Utilities/LockWeakPtr.h"
+#include <algorithm>
+
+namespace ptne
+{
+using namespace std;
+using enum PTN_Engine::ACTIONS_THREAD_OPTION;
+
+PTN_EngineImp::PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
+: m_actionsThreadOption(actionsThreadOption)
+, m_actionsExecutor(ActionsExecutorFactory::createExecutor(actionsThreadOption))
+, m_actionsExecutors{ { actionsThreadOption, m_actionsExecutor } }
+, m_eventLoop(*this)
+{
+}
+
+PTN_EngineImp::~PTN_EngineImp()
+{
+	stop();
+}
+
+void PTN_EngineImp::clearInputPlaces()
+{
+	m_places.clearInputPlaces();
+	m_newInputReceived = false;
+}
+
+void PTN_EngineImp::clearNet()
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot clear net while the event loop is running.");
+	}
+	m_transitions.clear();
+	m_places.clear();
+}
+
+void PTN_EngineImp::createTransition(const TransitionProperties &transitionProperties)
+{
+	createTransition(transitionProperties.name, transitionProperties.activationArcs,
+					 transitionProperties.destinationArcs, transitionProperties.inhibitorArcs,
+					 !transitionProperties.additionalConditionsNames.empty() ?
+					 m_conditions.getItems(transitionProperties.additionalConditionsNames) :
+					 createAnonymousConditions(transitionProperties.additionalConditions),
+					 transitionProperties.requireNoActionsInExecution);
+}
+
+void PTN_EngineImp::createPlace(PlaceProperties placeProperties)
+{
+	ActionFunction onEnterAction = placeProperties.onEnterAction;
+	if (!placeProperties.onEnterActionFunctionName.empty())
+	{
+		placeProperties.onEnterAction = m_actions.getItem(placeProperties.onEnterActionFunctionName);
+	}
+
+	ActionFunction onExitAction = placeProperties.onExitAction;
+	if (!placeProperties.onExitActionFunctionName.empty())
+	{
+		placeProperties.onExitAction = m_actions.getItem(placeProperties.onExitActionFunctionName);
+	}
+
+	auto place = make_shared<Place>(placeProperties, m_actionsExecutor);
+	m_places.insert(place);
+}
+
+bool PTN_EngineImp::isEventLoopRunning() const
+{
+	return m_eventLoop.isRunning();
+}
+
+void PTN_EngineImp::stop() noexcept
+{
+	m_eventLoop.stop();
+}
+
+void PTN_EngineImp::registerAction(const string &name, const ActionFunction &action)
+{
+	m_actions.addItem(name, action);
+}
+
+void PTN_EngineImp::registerCondition(const string &name, const ConditionFunction &condition)
+{
+	m_conditions.addItem(name, condition);
+}
+
+size_t PTN_EngineImp::getNumberOfTokens(const string &place) const
+{
+	return m_places.getNumberOfTokens(place);
+}
+
+void PTN_EngineImp::incrementInputPlace(const string &place)
+{
+	m_places.incrementInputPlace(place);
+	m_newInputReceived = true;
+	m_eventLoop.notifyNewEvent();
+}
+
+void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot change actions thread option while the event loop is running.");
+	}
+
+	unique_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
+
+	if (m_actionsThreadOption == actionsThreadOption)
+	{
+		return;
+	}
+
+	// Keep the previous executor: its pending actions must still run, and this call must not wait for them.
+	auto &actionsExecutor = m_actionsExecutors[actionsThreadOption];
+	if (actionsExecutor == nullptr)
+	{
+		actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	}
+	m_actionsExecutor = actionsExecutor;
+	m_actionsThreadOption = actionsThreadOption;
+
+	m_places.setActionsExecutor(m_actionsExecutor);
+}
+
+PTN_Engine::ACTIONS_THREAD_OPTION PTN_EngineImp::getActionsThreadOption() const
+{
+	shared_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
+	return m_actionsThreadOption;
+}
+
+void PTN_EngineImp::printState(ostream &o) const
+{
+	m_places.printState(o);
+}
+
+void PTN_EngineImp::execute(const bool log, ostream &o)
+{
+	m_eventLoop.start(log, o);
+}
+
+bool PTN_EngineImp::executeInt(const bool log, ostream &o)
+{
+	bool firedAtLeastOneTransition = false;
+	setNewInputReceived(false);
+
+	if (log)
+	{
+		printState(o);
+	}
+
+	for (const auto &transition : enabledTransitions())
+	{
+		if (auto enabledTransition = lockWeakPtr(transition))
+		{
+			firedAtLeastOneTransition |= enabledTransition->execute();
+		}
+	}
+	return firedAtLeastOneTransition;
+}
+
+bool PTN_EngineImp::getNewInputReceived() const
+{
+	return m_newInputReceived;
+}
+
+void PTN_EngineImp::setNewInputReceived(const bool newInputReceived)
+{
+	m_newInputReceived = newInputReceived;
+}
+
+vector<weak_ptr<Transition>> PTN_EngineImp::enabledTransitions() const
+{
+	return m_transitions.collectEnabledTransitionsRandomly();
+}
+
+void PTN_EngineImp::setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration)
+{
+	m_eventLoop.setSleepDuration(sleepDuration);
+}
+
+PTN_Engine::EventLoopSleepDuration PTN_EngineImp::getEventLoopSleepDuration() const
+{
+	return m_eventLoop.getSleepDuration();
+}
+
+void PTN_EngineImp::addArc(const ArcProperties &arcProperties) const
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot add arc while the event loop is running.");
+	}
+
+	if (!m_places.contains(arcProperties.placeName))
+	{
+		throw PTN_Exception("The place " + arcProperties.placeName +
+							" must already exist in order to link to an arc.");
+	}
+	auto spPlace = m_places.getPlace(arcProperties.placeName);
+
+	if (!m_transitions.contains(arcProperties.transitionName))
+	{
+		throw PTN_Exception("The transition " + arcProperties.transitionName +
+							" must already exist in order to link to an arc.");
+	}
+
+	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
+	spTransition->addArc(spPlace, arcProperties.type, arcProperties.weight);
+}
+
+void PTN_EngineImp::removeArc(const ArcProperties &arcProperties) const
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot remove arc while the event loop is running.");
+	}
+
+	if (!m_places.contains(arcProperties.placeName))
+	{
+		throw PTN_Exception("The place " + arcProperties.placeName +
+							" must already exist in order to unlink an arc.");
+	}
+	auto spPlace = m_places.getPlace(arcProperties.placeName);
+
+	if (!m_transitions.contains(arcProperties.transitionName))
+	{
+		throw PTN_Exception("The transition " + arcProperties.transitionName +
+							" must already exist in order to unlink an arc.");
+	}
+
+	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
+	spTransition->removeArc(spPlace, arcProperties.type);
+}
+
+vector<PlaceProperties> PTN_EngineImp::getPlacesProperties() const
+{
+	return m_places.getPlacesProperties();
+}
+
+vector<TransitionProperties> PTN_EngineImp::getTransitionsProperties() const
+{
+	return m_transitions.getTransitionsProperties();
+}
+
+// Private
+
+void PTN_EngineImp::createTransition(const string &name,
+                                     const vector<ArcProperties> &activationArcs,
+                                     const vector<ArcProperties> &destinationArcs,
+                                     const vector<ArcProperties> &inhibitorArcs,
+                                     const vector<pair<string, ConditionFunction>> &additionalConditions,
+                                     const bool requireNoActionsInExecution)
+{
+	// if a transition with this name already exists in the net, throw an exception
+	if (m_transitions.contains(name))
+	{
+		throw PTN_Exception("Cannot create transition that already exists. Name: " + name);
+	}
+
+	auto getArcsFromArcsProperties = [this](const vector<ArcProperties> &arcProperties)
+	{
+		vector<Arc> arcs;
+		for (const auto &arcProperty : arcProperties)
+		{
+			arcs.emplace_back(m_places.getPlace(arcProperty.placeName), arcProperty.weight);
+		}
+		return arcs;
+	};
+
+	m_transitions.insert(make_shared<Transition>(name, getArcsFromArcsProperties(activationArcs),
+												 getArcsFromArcsProperties(destinationArcs),
+												 getArcsFromArcsProperties(inhibitorArcs), additionalConditions,
+												 requireNoActionsInExecution));
+}
+
+vector<pair<string, ConditionFunction>>
+PTN_EngineImp::createAnonymousConditions(const vector<ConditionFunction> &conditions) const
+{
+	vector<pair<string, ConditionFunction>> anonymousConditionsVector;
+	ranges::transform(conditions, back_inserter(anonymousConditionsVector),
+					  [](const auto &condition) { return pair<string, ConditionFunction>("", condition); });
+	return anonymousConditionsVector;
+}
+
+} // namespace ptne
diff --git a/PTN_Engine/PTN_EngineImp.h b/PTN_Engine/PTN_EngineImp.h
index 143a4b9..623b826 100755
--- a/PTN_Engine/PTN_EngineImp.h
+++ b/PTN_Engine/PTN_EngineImp.h
@@ -1,219 +1,223 @@
-/*
- * This file is part of PTN Engine
- *
- * Copyright (c) 2017 Eduardo Valgôde
- * Copyright (c) 2021 Kale Evans
- * Copyright (c) 2024 Eduardo Valgôde
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- * http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-#pragma once
-
-#include "PTN_Engine/EventLoop.h"
-#include "PTN_Engine/IPTN_EngineEL.h"
-#include "PTN_Engine/ManagedContainer.h"
-#include "PTN_Engine/PTN_Engine.h"
-#include "PTN_Engine/Place.h"
-#include "PTN_Engine/PlacesManager.h"
-#include "PTN_Engine/TransitionsManager.h"
-#include <atomic>
-#include <shared_mutex>
-
-namespace ptne
-{
-
-class IActionFunctor;
-class IConditionFunctor;
-class IActionsExecutor;
-class JobQueue;
-class Place;
-class Transition;
-
-using SharedPtrPlace = std::shared_ptr<Place>;
-using WeakPtrPlace = std::weak_ptr<Place>;
-
-
-//! Implements the Petri net logic.
-class PTN_EngineImp final : public IPTN_EngineEL
-{
-public:
-	~PTN_EngineImp() override;
-	explicit PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
-	PTN_EngineImp(const PTN_EngineImp &) = delete;
-	PTN_EngineImp(PTN_EngineImp &&) = delete;
-	PTN_EngineImp &operator=(const PTN_EngineImp &) = delete;
-	PTN_EngineImp &operator=(PTN_EngineImp &&) = delete;
-
-	PTN_Engine::ACTIONS_THREAD_OPTION getActionsThreadOption() const override;
-
-	//!
-	//! \brief Indicates if there are new tokens in any input places.
-	//! \return True of there is a new token in an input place.
-	//!
-	bool getNewInputReceived() const override;
-
-	void addArc(const ArcProperties &arcProperties) const;
-
-	//!
-	//! Clear the token counter from all input places.
-	//!
-	void clearInputPlaces();
-
-	void clearNet();
-
-	void createPlace(PlaceProperties placeProperties);
-
-	void createTransition(const TransitionProperties &transitionProperties);
-
-	//!
-	//! \brief Gets the transitions that are currently enabled.
-	//! \return Weak pointers to the transitions that are enabled.
-	//!
-	std::vector<std::weak_ptr<Transition>> enabledTransitions() const;
-
-	//!
-	//! Start the petri net event loop.
-	//! \param log Flag logging the state of the net on or off.
-	//! \param o Log output stream.
-	//!
-	void execute(const bool log = false, std::ostream &o = std::cout);
-
-	//!
-	//! \brief Gets the current sleep time set in the event loop.
-	//! \return The sleep time of the event loop.
-	//!
-	PTN_Engine::EventLoopSleepDuration getEventLoopSleepDuration() const;
-
-	//!
-	//! Return the number of tokens in a given place.
-	//! \param place The name of the place to get the number of tokens from.
-	//! \return The number of tokens present in the place.
-	//!
-	size_t getNumberOfTokens(const std::string &place) const;
-
-	std::vector<PlaceProperties> getPlacesProperties() const;
-
-	std::vector<TransitionProperties> getTransitionsProperties() const;
-
-	//!
-	//! Add a token in an input place.
-	//! \param place Name of the place to be incremented.
-	//!
-	void incrementInputPlace(const std::string &place);
-
-	bool isEventLoopRunning() const;
-
-	//!
-	//! Print the petri net places and number of tokens.
-	//! \param o Output stream.
-	//!
-	void printState(std::ostream &o) const;
-
-	//!
-	//! Register an action to be called by the Petri net.
-	//! \param name The name of the place.
-	//! \param action The function to be called once a token enters the place.
-	//!
-	void registerAction(const std::string &name, const ActionFunction &action);
-
-	//!
-	//! Register a condition
-	//! \param name The name of the condition
-	//! \param conditions A function pointer to a condition.
-	//!
-	void registerCondition(const std::string &name, const ConditionFunction &condition);
-
-	void removeArc(const ArcProperties &arcProperties) const;
-
-	//! Specify the thread where the actions should be run.
-	void setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
-
-	//!
-	//! \brief Set the sleep duration of the event loop.
-	//! \param sleepDuration - Time the event loop takes until it checks for new inputs.
-	//!
-	void setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration);
-
-	//!
-	//! \brief Stop the execution of the petri net.
-	//!
-	void stop() noexcept;
-
-private:
-	//!
-	//! \brief Execute the Petri net.
-	//! \param log
-	//! \param o
-	//! \return
-	//!
-	bool executeInt(const bool log = false, std::ostream &o = std::cout) override;
-
-	//!
-	//! \brief createAnonymousConditions - Create activation conditions without proiding a name.
-	//! \param conditions
-	//! \return
-	//!
-	std::vector<std::pair<std::string, ConditionFunction>>
-	createAnonymousConditions(const std::vector<ConditionFunction> &conditions) const;
-
-	//!
-	//! \brief Create a new transition in the petri net.
-	//! \param name - name of the transition
-	//! \param activationArcs
-	//! \param destinationArcs
-	//! \param inhibitorArcs
-	//! \param additionalConditions - boolean functions that provide additional conditions, necessary to fire a
-	//! transition. \param requireNoActionsInExecution - flag that determines if the on enter actions of each
-	//! activation place, must have finished before fireing the transition.
-	//!
-	void createTransition(const std::string &name,
-						  const std::vector<ArcProperties> &activationArcs,
-						  const std::vector<ArcProperties> &destinationArcs,
-						  const std::vector<ArcProperties> &inhibitorArcs,
-						  const std::vector<std::pair<std::string, ConditionFunction>> &additionalConditions,
-						  const bool requireNoActionsInExecution);
-
-	//!
-	//! \brief Flags or clears flag of new tokens in input places.
-	//! \param newInputReceived - The new value for the new input received flag.
-	//!
-	void setNewInputReceived(const bool newInputReceived);
-
-	//! Container with all the actions available to this Petri net.
-	ManagedContainer<ActionFunction> m_actions;
-
-	//! Executes the actions associated to each place, when tokens enter or exit them.z
-	std::shared_ptr<IActionsExecutor> m_actionsExecutor;
-
-	//! Determines how the actions will be executed.
-	PTN_Engine::ACTIONS_THREAD_OPTION m_actionsThreadOption;
-
-	//! Mutex to synchronize m_actionsThreadOption.
-	mutable std::shared_mutex m_actionsThreadOptionMutex;
-
-	//! Conditions that can be used by the Petri net.
-	ManagedContainer<ConditionFunction> m_conditions;
-
-	//! Loop that processes events and executes the Petri net.
-	EventLoop m_eventLoop;
-
-	//! Flag reporting a new input event.
-	std::atomic<bool> m_newInputReceived = false;
-
-	PlacesManager m_places;
-
-	TransitionsManager m_transitions;
-};
-
-} // namespace ptne
+/*
+ * This file is part of PTN Engine
+ *
+ * Copyright (c) 2017 Eduardo Valgôde
+ * Copyright (c) 2021 Kale Evans
+ * Copyright (c) 2024 Eduardo Valgôde
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+#pragma once
+
+#include "PTN_Engine/EventLoop.h"
+#include "PTN_Engine/IPTN_EngineEL.h"
+#include "PTN_Engine/ManagedContainer.h"
+#include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/Place.h"
+#include "PTN_Engine/PlacesManager.h"
+#include "PTN_Engine/TransitionsManager.h"
+#include <atomic>
+#include <map>
+#include <shared_mutex>
+
+namespace ptne
+{
+
+class IActionFunctor;
+class IConditionFunctor;
+class IActionsExecutor;
+class JobQueue;
+class Place;
+class Transition;
+
+using SharedPtrPlace = std::shared_ptr<Place>;
+using WeakPtrPlace = std::weak_ptr<Place>;
+
+
+//! Implements the Petri net logic.
+class PTN_EngineImp final : public IPTN_EngineEL
+{
+public:
+	~PTN_EngineImp() override;
+	explicit PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
+	PTN_EngineImp(const PTN_EngineImp &) = delete;
+	PTN_EngineImp(PTN_EngineImp &&) = delete;
+	PTN_EngineImp &operator=(const PTN_EngineImp &) = delete;
+	PTN_EngineImp &operator=(PTN_EngineImp &&) = delete;
+
+	PTN_Engine::ACTIONS_THREAD_OPTION getActionsThreadOption() const override;
+
+	//!
+	//! \brief Indicates if there are new tokens in any input places.
+	//! \return True of there is a new token in an input place.
+	//!
+	bool getNewInputReceived() const override;
+
+	void addArc(const ArcProperties &arcProperties) const;
+
+	//!
+	//! Clear the token counter from all input places.
+	//!
+	void clearInputPlaces();
+
+	void clearNet();
+
+	void createPlace(PlaceProperties placeProperties);
+
+	void createTransition(const TransitionProperties &transitionProperties);
+
+	//!
+	//! \brief Gets the transitions that are currently enabled.
+	//! \return Weak pointers to the transitions that are enabled.
+	//!
+	std::vector<std::weak_ptr<Transition>> enabledTransitions() const;
+
+	//!
+	//! Start the petri net event loop.
+	//! \param log Flag logging the state of the net on or off.
+	//! \param o Log output stream.
+	//!
+	void execute(const bool log = false, std::ostream &o = std::cout);
+
+	//!
+	//! \brief Gets the current sleep time set in the event loop.
+	//! \return The sleep time of the event loop.
+	//!
+	PTN_Engine::EventLoopSleepDuration getEventLoopSleepDuration() const;
+
+	//!
+	//! Return the number of tokens in a given place.
+	//! \param place The name of the place to get the number of tokens from.
+	//! \return The number of tokens present in the place.
+	//!
+	size_t getNumberOfTokens(const std::string &place) const;
+
+	std::vector<PlaceProperties> getPlacesProperties() const;
+
+	std::vector<TransitionProperties> getTransitionsProperties() const;
+
+	//!
+	//! Add a token in an input place.
+	//! \param place Name of the place to be incremented.
+	//!
+	void incrementInputPlace(const std::string &place);
+
+	bool isEventLoopRunning() const;
+
+	//!
+	//! Print the petri net places and number of tokens.
+	//! \param o Output stream.
+	//!
+	void printState(std::ostream &o) const;
+
+	//!
+	//! Register an action to be called by the Petri net.
+	//! \param name The name of the place.
+	//! \param action The function to be called once a token enters the place.
+	//!
+	void registerAction(const std::string &name, const ActionFunction &action);
+
+	//!
+	//! Register a condition
+	//! \param name The name of the condition
+	//! \param conditions A function pointer to a condition.
+	//!
+	void registerCondition(const std::string &name, const ConditionFunction &condition);
+
+	void removeArc(const ArcProperties &arcProperties) const;
+
+	//! Specify the thread where the actions should be run.
+	void setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
+
+	//!
+	//! \brief Set the sleep duration of the event loop.
+	//! \param sleepDuration - Time the event loop takes until it checks for new inputs.
+	//!
+	void setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration);
+
+	//!
+	//! \brief Stop the execution of the petri net.
+	//!
+	void stop() noexcept;
+
+private:
+	//!
+	//! \brief Execute the Petri net.
+	//! \param log
+	//! \param o
+	//! \return
+	//!
+	bool executeInt(const bool log = false, std::ostream &o = std::cout) override;
+
+	//!
+	//! \brief createAnonymousConditions - Create activation conditions without proiding a name.
+	//! \param conditions
+	//! \return
+	//!
+	std::vector<std::pair<std::string, ConditionFunction>>
+	createAnonymousConditions(const std::vector<ConditionFunction> &conditions) const;
+
+	//!
+	//! \brief Create a new transition in the petri net.
+	//! \param name - name of the transition
+	//! \param activationArcs
+	//! \param destinationArcs
+	//! \param inhibitorArcs
+	//! \param additionalConditions - boolean functions that provide additional conditions, necessary to fire a
+	//! transition. \param requireNoActionsInExecution - flag that determines if the on enter actions of each
+	//! activation place, must have finished before fireing the transition.
+	//!
+	void createTransition(const std::string &name,
+						  const std::vector<ArcProperties> &activationArcs,
+						  const std::vector<ArcProperties> &destinationArcs,
+						  const std::vector<ArcProperties> &inhibitorArcs,
+						  const std::vector<std::pair<std::string, ConditionFunction>> &additionalConditions,
+						  const bool requireNoActionsInExecution);
+
+	//!
+	//! \brief Flags or clears flag of new tokens in input places.
+	//! \param newInputReceived - The new value for the new input received flag.
+	//!
+	void setNewInputReceived(const bool newInputReceived);
+
+	//! Container with all the actions available to this Petri net.
+	ManagedContainer<ActionFunction> m_actions;
+
+	//! Executes the actions associated to each place, when tokens enter or exit them.z
+	std::shared_ptr<IActionsExecutor> m_actionsExecutor;
+
+	//! The executors of all the options used so far, an executor that is no longer in use may have pending actions.
+	std::map<PTN_Engine::ACTIONS_THREAD_OPTION, std::shared_ptr<IActionsExecutor>> m_actionsExecutors;
+
+	//! Determines how the actions will be executed.
+	PTN_Engine::ACTIONS_THREAD_OPTION m_actionsThreadOption;
+
+	//! Mutex to synchronize m_actionsThreadOption.
+	mutable std::shared_mutex m_actionsThreadOptionMutex;
+
+	//! Conditions that can be used by the Petri net.
+	ManagedContainer<ConditionFunction> m_conditions;
+
+	//! Loop that processes events and executes the Petri net.
+	EventLoop m_eventLoop;
+
+	//! Flag reporting a new input event.
+	std::atomic<bool> m_newInputReceived = false;
+
+	PlacesManager m_places;
+
+	TransitionsManager m_transitions;
+};
+
+} // namespace ptne
-- 
2.43.0


From fa1cb534c8d057d4db3f2cda65fc48ce9e4f7863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 09/19] fix: restarting waits for the previous event loop
 thread before replacing its barrier

The previous thread could still be using the barrier when stop() returned.
---
 PTN_Engine/EventLoop.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index f1b7028..ed6474a 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -64,6 +64,11 @@ void EventLoop::start(const bool log, ostream &o)
 	}
 	else
 	{
+		if (m_eventLoopThread.joinable())
+		{
+			// The previous thread may still be leaving the barrier that is about to be replaced.
+			m_eventLoopThread.join();
+		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
 		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
-- 
2.43.0


From 568e21254b0160ac54d4087361f276fd172139ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 10/19] fix: setting the event loop sleep duration does not
 wait for the sleeping loop

The event loop held the mutex of the duration for as long as it slept.
---
 PTN_Engine/EventLoop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index ed6474a..33e6d30 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -100,9 +100,9 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 	{
 		if (!m_ptnEngine.executeInt(log, o))
 		{
-			shared_lock lock(m_sleepDurationMutex);
+			const SleepDuration sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
-			m_eventNotifier.wait_for(eventNotifierGuard, m_sleepDuration,
+			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
 									 [this] { return m_ptnEngine.getNewInputReceived(); });
 		}
 	}
-- 
2.43.0


From e686d151691dd484937c0292070bd0fd01e08ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 11/19] fix: stop() wakes up the event loop instead of waiting
 for its sleep duration

---
 PTN_Engine/EventLoop.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 33e6d30..4072198 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -47,6 +47,7 @@ void EventLoop::stop() noexcept
 	if (m_eventLoopThread.get_stop_token().stop_possible())
 	{
 		m_eventLoopThread.request_stop();
+		notifyNewEvent();
 		m_barrier->arrive_and_wait();
 	}
 }
@@ -103,7 +104,8 @@ void EventLoop::run(stop_token stopToken, const bool log, ostream &o)
 			const SleepDuration sleepDuration = getSleepDuration();
 			unique_lock eventNotifierGuard(m_eventNotifierMutex);
 			m_eventNotifier.wait_for(eventNotifierGuard, sleepDuration,
-									 [this] { return m_ptnEngine.getNewInputReceived(); });
+									 [this, &stopToken]
+									 { return m_ptnEngine.getNewInputReceived() || stopToken.stop_requested(); });
 		}
 	}
 	m_eventLoopThreadRunning = false;
-- 
2.43.0


From 88c7a17e8a31fdf9f2202845c8a6fa121315af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 12/19] fix: read the properties of a place with the place
 locked

---
 PTN_Engine/Place.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/Place.cpp b/PTN_Engine/Place.cpp
index 7ad4b06..8fd8bc9 100644
--- a/PTN_Engine/Place.cpp
+++ b/PTN_Engine/Place.cpp
@@ -169,6 +169,7 @@ void Place::blockStartingOnEnterActions(const bool value)
 
 PlaceProperties Place::placeProperties() const
 {
+	shared_lock guard(m_mutex);
 	PlaceProperties placeProperties;
 	placeProperties.name = m_name;
 	placeProperties.onEnterActionFunctionName = m_onEnterActionName;
-- 
2.43.0


From a5c8082763414c202cfe8eb1563b81e50b696ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 13/19] fix: addArc rejects arcs that bring in no tokens

Firing such a transition threw after having taken the activation tokens.
---
 PTN_Engine/Transition.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index e892b22..d089464 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -257,6 +257,12 @@ void Transition::addArc(const shared_ptr<Place> &place, const ArcProperties::Typ
 	};
 
 	using enum ArcProperties::Type;
+	if (weight == 0 && (type == DESTINATION || type == BIDIRECTIONAL))
+	{
+		// Tokens cannot be brought in with no weight, firing would throw after taking the activation tokens.
+		throw ZeroValueWeightException();
+	}
+
 	switch (type)
 	{
 	default:
-- 
2.43.0


From ffd61c132b474fd6f162498ca94cd303cc255da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 14/19] fix: deactivating a job queue that ran out of jobs or
 was deactivated before

Joining a thread that was joined before terminated the program, and a job
added during the deactivation could replace the thread being joined.
---
 PTN_Engine/JobQueue/JobQueue.cpp | 20 +++++++-------------
 PTN_Engine/JobQueue/JobQueue.h   |  4 ++++
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index bde84e0..390e672 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -30,26 +30,19 @@ JobQueue::~JobQueue() = default;
 
 void JobQueue::activate()
 {
-	if (m_isJobQueueActive)
 	{
-		return;
+		lock_guard l(m_jobQueueMutex);
+		m_isJobQueueActive = true;
 	}
-	m_isJobQueueActive = true;
 	launch();
 }
 
 void JobQueue::deactivate() noexcept
 {
-	if (!m_isJobQueueActive)
-	{
-		return;
-	}
-	if (m_workerThread.get_stop_token().stop_possible())
-	{
-		m_workerThread.request_stop();
-		m_workerThread.join();
-	}
+	unique_lock l(m_jobQueueMutex);
 	m_isJobQueueActive = false;
+	// Wait for the job in progress, if any.
+	m_workerFinished.wait(l, [this] { return !m_isJobQueueRunning || m_isJobQueueActive; });
 }
 
 bool JobQueue::isActive() const
@@ -77,7 +70,7 @@ void JobQueue::launch()
 void JobQueue::run(stop_token stopToken)
 {
 	unique_lock l(m_jobQueueMutex);
-	while (!m_jobQueue.empty() && !stopToken.stop_requested())
+	while (m_isJobQueueActive && !m_jobQueue.empty() && !stopToken.stop_requested())
 	{
 		ActionFunction job = m_jobQueue.back();
 		m_jobQueue.pop_back();
@@ -86,6 +79,7 @@ void JobQueue::run(stop_token stopToken)
 		l.lock();
 	}
 	m_isJobQueueRunning = false;
+	m_workerFinished.notify_all();
 }
 
 void JobQueue::addJob(const ActionFunction &actionFunction)
diff --git a/PTN_Engine/JobQueue/JobQueue.h b/PTN_Engine/JobQueue/JobQueue.h
index a99edcc..127f4ed 100755
--- a/PTN_Engine/JobQueue/JobQueue.h
+++ b/PTN_Engine/JobQueue/JobQueue.h
@@ -20,6 +20,7 @@
 
 #include "PTN_Engine/PTN_Engine.h"
 #include <atomic>
+#include <condition_variable>
 #include <deque>
 #include <mutex>
 #include <thread>
@@ -82,6 +83,9 @@ private:
 	//! Mutex to synchronize the job queue operations.
 	std::mutex m_jobQueueMutex;
 
+	//! Notifies that the worker thread will not run any further job.
+	std::condition_variable m_workerFinished;
+
 	//! Thread where the jobs are executed.
 	std::jthread m_workerThread;
 };
-- 
2.43.0


From 6997bc7b0818d9f0aed110e3a68c67e9539abd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 15/19] fix: a transition inhibited at all times is not fired
 when tokens arrive during its evaluation

With the inhibitor places read first, tokens arriving in an inhibitor place and
then in an activation place, between the two reads, fired the transition.
---
 PTN_Engine/Transition.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/Transition.cpp b/PTN_Engine/Transition.cpp
index d089464..e922025 100755
--- a/PTN_Engine/Transition.cpp
+++ b/PTN_Engine/Transition.cpp
@@ -128,12 +128,14 @@ bool Transition::isEnabled() const
 
 bool Transition::isEnabledInternal() const
 {
-	if (!checkInhibitorPlaces())
+	// Tokens can arrive in the meantime. When the inhibitor places are found empty after the activation places
+	// were found to have enough tokens, both were true at the same time.
+	if (!checkActivationPlaces())
 	{
 		return false;
 	}
 
-	if (!checkActivationPlaces())
+	if (!checkInhibitorPlaces())
 	{
 		return false;
 	}
-- 
2.43.0


From 82d44b2bad6b4dcbd296f2d15c2ee07b2a2d45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:32 +0000
Subject: [PATCH 16/19] fix: deactivating a job queue returns when it is
 activated again meanwhile

---
 PTN_Engine/JobQueue/JobQueue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PTN_Engine/JobQueue/JobQueue.cpp b/PTN_Engine/JobQueue/JobQueue.cpp
index 390e672..5f08fe2 100755
--- a/PTN_Engine/JobQueue/JobQueue.cpp
+++ b/PTN_Engine/JobQueue/JobQueue.cpp
@@ -34,6 +34,7 @@ void JobQueue::activate()
 		lock_guard l(m_jobQueueMutex);
 		m_isJobQueueActive = true;
 	}
+	m_workerFinished.notify_all();
 	launch();
 }
 
-- 
2.43.0


From 006b3cf844e40fc7e519cd36e11bb38e2b1f09f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:16 +0000
Subject: [PATCH 17/19] fix: restore the line endings of PTN_EngineImp changed
 by the fix of setActionsThreadOption

---
 PTN_Engine/PTN_EngineImp.cpp | 610 +++++++++++++++++------------------
 PTN_Engine/PTN_EngineImp.h   | 446 ++++++++++++-------------
 2 files changed, 528 insertions(+), 528 deletions(-)

diff --git a/PTN_Engine/PTN_EngineImp.cpp b/PTN_Engine/PTN_EngineImp.cpp
index 079c864..31d793e 100755
--- a/PTN_Engine/PTN_EngineImp.cpp
+++ b/PTN_Engine/PTN_EngineImp.cpp
@@ -1,305 +1,305 @@
-/*
- * This file is part of PTN Engine
- *
- * Copyright (c) 2017 Eduardo Valgôde
- * Copyright (c) 2021 Kale Evans
- * Copyright (c) 2024 Eduardo Valgôde
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- * http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-#include "PTN_Engine/PTN_EngineImp.h"
-#include "PTN_Engine/Executor/ActionsExecutorFactory.h"
-#include "PTN_Engine/Utilities/LockWeakPtr.h"
-#include <algorithm>
-
-namespace ptne
-{
-using namespace std;
-using enum PTN_Engine::ACTIONS_THREAD_OPTION;
-
-PTN_EngineImp::PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
-: m_actionsThreadOption(actionsThreadOption)
-, m_actionsExecutor(ActionsExecutorFactory::createExecutor(actionsThreadOption))
-, m_actionsExecutors{ { actionsThreadOption, m_actionsExecutor } }
-, m_eventLoop(*this)
-{
-}
-
-PTN_EngineImp::~PTN_EngineImp()
-{
-	stop();
-}
-
-void PTN_EngineImp::clearInputPlaces()
-{
-	m_places.clearInputPlaces();
-	m_newInputReceived = false;
-}
-
-void PTN_EngineImp::clearNet()
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot clear net while the event loop is running.");
-	}
-	m_transitions.clear();
-	m_places.clear();
-}
-
-void PTN_EngineImp::createTransition(const TransitionProperties &transitionProperties)
-{
-	createTransition(transitionProperties.name, transitionProperties.activationArcs,
-					 transitionProperties.destinationArcs, transitionProperties.inhibitorArcs,
-					 !transitionProperties.additionalConditionsNames.empty() ?
-					 m_conditions.getItems(transitionProperties.additionalConditionsNames) :
-					 createAnonymousConditions(transitionProperties.additionalConditions),
-					 transitionProperties.requireNoActionsInExecution);
-}
-
-void PTN_EngineImp::createPlace(PlaceProperties placeProperties)
-{
-	ActionFunction onEnterAction = placeProperties.onEnterAction;
-	if (!placeProperties.onEnterActionFunctionName.empty())
-	{
-		placeProperties.onEnterAction = m_actions.getItem(placeProperties.onEnterActionFunctionName);
-	}
-
-	ActionFunction onExitAction = placeProperties.onExitAction;
-	if (!placeProperties.onExitActionFunctionName.empty())
-	{
-		placeProperties.onExitAction = m_actions.getItem(placeProperties.onExitActionFunctionName);
-	}
-
-	auto place = make_shared<Place>(placeProperties, m_actionsExecutor);
-	m_places.insert(place);
-}
-
-bool PTN_EngineImp::isEventLoopRunning() const
-{
-	return m_eventLoop.isRunning();
-}
-
-void PTN_EngineImp::stop() noexcept
-{
-	m_eventLoop.stop();
-}
-
-void PTN_EngineImp::registerAction(const string &name, const ActionFunction &action)
-{
-	m_actions.addItem(name, action);
-}
-
-void PTN_EngineImp::registerCondition(const string &name, const ConditionFunction &condition)
-{
-	m_conditions.addItem(name, condition);
-}
-
-size_t PTN_EngineImp::getNumberOfTokens(const string &place) const
-{
-	return m_places.getNumberOfTokens(place);
-}
-
-void PTN_EngineImp::incrementInputPlace(const string &place)
-{
-	m_places.incrementInputPlace(place);
-	m_newInputReceived = true;
-	m_eventLoop.notifyNewEvent();
-}
-
-void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot change actions thread option while the event loop is running.");
-	}
-
-	unique_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
-
-	if (m_actionsThreadOption == actionsThreadOption)
-	{
-		return;
-	}
-
-	// Keep the previous executor: its pending actions must still run, and this call must not wait for them.
-	auto &actionsExecutor = m_actionsExecutors[actionsThreadOption];
-	if (actionsExecutor == nullptr)
-	{
-		actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
-	}
-	m_actionsExecutor = actionsExecutor;
-	m_actionsThreadOption = actionsThreadOption;
-
-	m_places.setActionsExecutor(m_actionsExecutor);
-}
-
-PTN_Engine::ACTIONS_THREAD_OPTION PTN_EngineImp::getActionsThreadOption() const
-{
-	shared_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
-	return m_actionsThreadOption;
-}
-
-void PTN_EngineImp::printState(ostream &o) const
-{
-	m_places.printState(o);
-}
-
-void PTN_EngineImp::execute(const bool log, ostream &o)
-{
-	m_eventLoop.start(log, o);
-}
-
-bool PTN_EngineImp::executeInt(const bool log, ostream &o)
-{
-	bool firedAtLeastOneTransition = false;
-	setNewInputReceived(false);
-
-	if (log)
-	{
-		printState(o);
-	}
-
-	for (const auto &transition : enabledTransitions())
-	{
-		if (auto enabledTransition = lockWeakPtr(transition))
-		{
-			firedAtLeastOneTransition |= enabledTransition->execute();
-		}
-	}
-	return firedAtLeastOneTransition;
-}
-
-bool PTN_EngineImp::getNewInputReceived() const
-{
-	return m_newInputReceived;
-}
-
-void PTN_EngineImp::setNewInputReceived(const bool newInputReceived)
-{
-	m_newInputReceived = newInputReceived;
-}
-
-vector<weak_ptr<Transition>> PTN_EngineImp::enabledTransitions() const
-{
-	return m_transitions.collectEnabledTransitionsRandomly();
-}
-
-void PTN_EngineImp::setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration)
-{
-	m_eventLoop.setSleepDuration(sleepDuration);
-}
-
-PTN_Engine::EventLoopSleepDuration PTN_EngineImp::getEventLoopSleepDuration() const
-{
-	return m_eventLoop.getSleepDuration();
-}
-
-void PTN_EngineImp::addArc(const ArcProperties &arcProperties) const
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot add arc while the event loop is running.");
-	}
-
-	if (!m_places.contains(arcProperties.placeName))
-	{
-		throw PTN_Exception("The place " + arcProperties.placeName +
-							" must already exist in order to link to an arc.");
-	}
-	auto spPlace = m_places.getPlace(arcProperties.placeName);
-
-	if (!m_transitions.contains(arcProperties.transitionName))
-	{
-		throw PTN_Exception("The transition " + arcProperties.transitionName +
-							" must already exist in order to link to an arc.");
-	}
-
-	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
-	spTransition->addArc(spPlace, arcProperties.type, arcProperties.weight);
-}
-
-void PTN_EngineImp::removeArc(const ArcProperties &arcProperties) const
-{
-	if (isEventLoopRunning())
-	{
-		throw PTN_Exception("Cannot remove arc while the event loop is running.");
-	}
-
-	if (!m_places.contains(arcProperties.placeName))
-	{
-		throw PTN_Exception("The place " + arcProperties.placeName +
-							" must already exist in order to unlink an arc.");
-	}
-	auto spPlace = m_places.getPlace(arcProperties.placeName);
-
-	if (!m_transitions.contains(arcProperties.transitionName))
-	{
-		throw PTN_Exception("The transition " + arcProperties.transitionName +
-							" must already exist in order to unlink an arc.");
-	}
-
-	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
-	spTransition->removeArc(spPlace, arcProperties.type);
-}
-
-vector<PlaceProperties> PTN_EngineImp::getPlacesProperties() const
-{
-	return m_places.getPlacesProperties();
-}
-
-vector<TransitionProperties> PTN_EngineImp::getTransitionsProperties() const
-{
-	return m_transitions.getTransitionsProperties();
-}
-
-// Private
-
-void PTN_EngineImp::createTransition(const string &name,
-                                     const vector<ArcProperties> &activationArcs,
-                                     const vector<ArcProperties> &destinationArcs,
-                                     const vector<ArcProperties> &inhibitorArcs,
-                                     const vector<pair<string, ConditionFunction>> &additionalConditions,
-                                     const bool requireNoActionsInExecution)
-{
-	// if a transition with this name already exists in the net, throw an exception
-	if (m_transitions.contains(name))
-	{
-		throw PTN_Exception("Cannot create transition that already exists. Name: " + name);
-	}
-
-	auto getArcsFromArcsProperties = [this](const vector<ArcProperties> &arcProperties)
-	{
-		vector<Arc> arcs;
-		for (const auto &arcProperty : arcProperties)
-		{
-			arcs.emplace_back(m_places.getPlace(arcProperty.placeName), arcProperty.weight);
-		}
-		return arcs;
-	};
-
-	m_transitions.insert(make_shared<Transition>(name, getArcsFromArcsProperties(activationArcs),
-												 getArcsFromArcsProperties(destinationArcs),
-												 getArcsFromArcsProperties(inhibitorArcs), additionalConditions,
-												 requireNoActionsInExecution));
-}
-
-vector<pair<string, ConditionFunction>>
-PTN_EngineImp::createAnonymousConditions(const vector<ConditionFunction> &conditions) const
-{
-	vector<pair<string, ConditionFunction>> anonymousConditionsVector;
-	ranges::transform(conditions, back_inserter(anonymousConditionsVector),
-					  [](const auto &condition) { return pair<string, ConditionFunction>("", condition); });
-	return anonymousConditionsVector;
-}
-
-} // namespace ptne
+/*
+ * This file is part of PTN Engine
+ *
+ * Copyright (c) 2017 Eduardo Valgôde
+ * Copyright (c) 2021 Kale Evans
+ * Copyright (c) 2024 Eduardo Valgôde
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+#include "PTN_Engine/PTN_EngineImp.h"
+#include "PTN_Engine/Executor/ActionsExecutorFactory.h"
+#include "PTN_Engine/Utilities/LockWeakPtr.h"
+#include <algorithm>
+
+namespace ptne
+{
+using namespace std;
+using enum PTN_Engine::ACTIONS_THREAD_OPTION;
+
+PTN_EngineImp::PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
+: m_actionsThreadOption(actionsThreadOption)
+, m_actionsExecutor(ActionsExecutorFactory::createExecutor(actionsThreadOption))
+, m_actionsExecutors{ { actionsThreadOption, m_actionsExecutor } }
+, m_eventLoop(*this)
+{
+}
+
+PTN_EngineImp::~PTN_EngineImp()
+{
+	stop();
+}
+
+void PTN_EngineImp::clearInputPlaces()
+{
+	m_places.clearInputPlaces();
+	m_newInputReceived = false;
+}
+
+void PTN_EngineImp::clearNet()
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot clear net while the event loop is running.");
+	}
+	m_transitions.clear();
+	m_places.clear();
+}
+
+void PTN_EngineImp::createTransition(const TransitionProperties &transitionProperties)
+{
+	createTransition(transitionProperties.name, transitionProperties.activationArcs,
+					 transitionProperties.destinationArcs, transitionProperties.inhibitorArcs,
+					 !transitionProperties.additionalConditionsNames.empty() ?
+					 m_conditions.getItems(transitionProperties.additionalConditionsNames) :
+					 createAnonymousConditions(transitionProperties.additionalConditions),
+					 transitionProperties.requireNoActionsInExecution);
+}
+
+void PTN_EngineImp::createPlace(PlaceProperties placeProperties)
+{
+	ActionFunction onEnterAction = placeProperties.onEnterAction;
+	if (!placeProperties.onEnterActionFunctionName.empty())
+	{
+		placeProperties.onEnterAction = m_actions.getItem(placeProperties.onEnterActionFunctionName);
+	}
+
+	ActionFunction onExitAction = placeProperties.onExitAction;
+	if (!placeProperties.onExitActionFunctionName.empty())
+	{
+		placeProperties.onExitAction = m_actions.getItem(placeProperties.onExitActionFunctionName);
+	}
+
+	auto place = make_shared<Place>(placeProperties, m_actionsExecutor);
+	m_places.insert(place);
+}
+
+bool PTN_EngineImp::isEventLoopRunning() const
+{
+	return m_eventLoop.isRunning();
+}
+
+void PTN_EngineImp::stop() noexcept
+{
+	m_eventLoop.stop();
+}
+
+void PTN_EngineImp::registerAction(const string &name, const ActionFunction &action)
+{
+	m_actions.addItem(name, action);
+}
+
+void PTN_EngineImp::registerCondition(const string &name, const ConditionFunction &condition)
+{
+	m_conditions.addItem(name, condition);
+}
+
+size_t PTN_EngineImp::getNumberOfTokens(const string &place) const
+{
+	return m_places.getNumberOfTokens(place);
+}
+
+void PTN_EngineImp::incrementInputPlace(const string &place)
+{
+	m_places.incrementInputPlace(place);
+	m_newInputReceived = true;
+	m_eventLoop.notifyNewEvent();
+}
+
+void PTN_EngineImp::setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption)
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot change actions thread option while the event loop is running.");
+	}
+
+	unique_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
+
+	if (m_actionsThreadOption == actionsThreadOption)
+	{
+		return;
+	}
+
+	// Keep the previous executor: its pending actions must still run, and this call must not wait for them.
+	auto &actionsExecutor = m_actionsExecutors[actionsThreadOption];
+	if (actionsExecutor == nullptr)
+	{
+		actionsExecutor = ActionsExecutorFactory::createExecutor(actionsThreadOption);
+	}
+	m_actionsExecutor = actionsExecutor;
+	m_actionsThreadOption = actionsThreadOption;
+
+	m_places.setActionsExecutor(m_actionsExecutor);
+}
+
+PTN_Engine::ACTIONS_THREAD_OPTION PTN_EngineImp::getActionsThreadOption() const
+{
+	shared_lock actionsThreadOptionGuard(m_actionsThreadOptionMutex);
+	return m_actionsThreadOption;
+}
+
+void PTN_EngineImp::printState(ostream &o) const
+{
+	m_places.printState(o);
+}
+
+void PTN_EngineImp::execute(const bool log, ostream &o)
+{
+	m_eventLoop.start(log, o);
+}
+
+bool PTN_EngineImp::executeInt(const bool log, ostream &o)
+{
+	bool firedAtLeastOneTransition = false;
+	setNewInputReceived(false);
+
+	if (log)
+	{
+		printState(o);
+	}
+
+	for (const auto &transition : enabledTransitions())
+	{
+		if (auto enabledTransition = lockWeakPtr(transition))
+		{
+			firedAtLeastOneTransition |= enabledTransition->execute();
+		}
+	}
+	return firedAtLeastOneTransition;
+}
+
+bool PTN_EngineImp::getNewInputReceived() const
+{
+	return m_newInputReceived;
+}
+
+void PTN_EngineImp::setNewInputReceived(const bool newInputReceived)
+{
+	m_newInputReceived = newInputReceived;
+}
+
+vector<weak_ptr<Transition>> PTN_EngineImp::enabledTransitions() const
+{
+	return m_transitions.collectEnabledTransitionsRandomly();
+}
+
+void PTN_EngineImp::setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration)
+{
+	m_eventLoop.setSleepDuration(sleepDuration);
+}
+
+PTN_Engine::EventLoopSleepDuration PTN_EngineImp::getEventLoopSleepDuration() const
+{
+	return m_eventLoop.getSleepDuration();
+}
+
+void PTN_EngineImp::addArc(const ArcProperties &arcProperties) const
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot add arc while the event loop is running.");
+	}
+
+	if (!m_places.contains(arcProperties.placeName))
+	{
+		throw PTN_Exception("The place " + arcProperties.placeName +
+							" must already exist in order to link to an arc.");
+	}
+	auto spPlace = m_places.getPlace(arcProperties.placeName);
+
+	if (!m_transitions.contains(arcProperties.transitionName))
+	{
+		throw PTN_Exception("The transition " + arcProperties.transitionName +
+							" must already exist in order to link to an arc.");
+	}
+
+	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
+	spTransition->addArc(spPlace, arcProperties.type, arcProperties.weight);
+}
+
+void PTN_EngineImp::removeArc(const ArcProperties &arcProperties) const
+{
+	if (isEventLoopRunning())
+	{
+		throw PTN_Exception("Cannot remove arc while the event loop is running.");
+	}
+
+	if (!m_places.contains(arcProperties.placeName))
+	{
+		throw PTN_Exception("The place " + arcProperties.placeName +
+							" must already exist in order to unlink an arc.");
+	}
+	auto spPlace = m_places.getPlace(arcProperties.placeName);
+
+	if (!m_transitions.contains(arcProperties.transitionName))
+	{
+		throw PTN_Exception("The transition " + arcProperties.transitionName +
+							" must already exist in order to unlink an arc.");
+	}
+
+	auto spTransition = m_transitions.getTransition(arcProperties.transitionName);
+	spTransition->removeArc(spPlace, arcProperties.type);
+}
+
+vector<PlaceProperties> PTN_EngineImp::getPlacesProperties() const
+{
+	return m_places.getPlacesProperties();
+}
+
+vector<TransitionProperties> PTN_EngineImp::getTransitionsProperties() const
+{
+	return m_transitions.getTransitionsProperties();
+}
+
+// Private
+
+void PTN_EngineImp::createTransition(const string &name,
+                                     const vector<ArcProperties> &activationArcs,
+                                     const vector<ArcProperties> &destinationArcs,
+                                     const vector<ArcProperties> &inhibitorArcs,
+                                     const vector<pair<string, ConditionFunction>> &additionalConditions,
+                                     const bool requireNoActionsInExecution)
+{
+	// if a transition with this name already exists in the net, throw an exception
+	if (m_transitions.contains(name))
+	{
+		throw PTN_Exception("Cannot create transition that already exists. Name: " + name);
+	}
+
+	auto getArcsFromArcsProperties = [this](const vector<ArcProperties> &arcProperties)
+	{
+		vector<Arc> arcs;
+		for (const auto &arcProperty : arcProperties)
+		{
+			arcs.emplace_back(m_places.getPlace(arcProperty.placeName), arcProperty.weight);
+		}
+		return arcs;
+	};
+
+	m_transitions.insert(make_shared<Transition>(name, getArcsFromArcsProperties(activationArcs),
+												 getArcsFromArcsProperties(destinationArcs),
+												 getArcsFromArcsProperties(inhibitorArcs), additionalConditions,
+												 requireNoActionsInExecution));
+}
+
+vector<pair<string, ConditionFunction>>
+PTN_EngineImp::createAnonymousConditions(const vector<ConditionFunction> &conditions) const
+{
+	vector<pair<string, ConditionFunction>> anonymousConditionsVector;
+	ranges::transform(conditions, back_inserter(anonymousConditionsVector),
+					  [](const auto &condition) { return pair<string, ConditionFunction>("", condition); });
+	return anonymousConditionsVector;
+}
+
+} // namespace ptne
diff --git a/PTN_Engine/PTN_EngineImp.h b/PTN_Engine/PTN_EngineImp.h
index 623b826..c7e86c4 100755
--- a/PTN_Engine/PTN_EngineImp.h
+++ b/PTN_Engine/PTN_EngineImp.h
@@ -1,223 +1,223 @@
-/*
- * This file is part of PTN Engine
- *
- * Copyright (c) 2017 Eduardo Valgôde
- * Copyright (c) 2021 Kale Evans
- * Copyright (c) 2024 Eduardo Valgôde
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- * http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-#pragma once
-
-#include "PTN_Engine/EventLoop.h"
-#include "PTN_Engine/IPTN_EngineEL.h"
-#include "PTN_Engine/ManagedContainer.h"
-#include "PTN_Engine/PTN_Engine.h"
-#include "PTN_Engine/Place.h"
-#include "PTN_Engine/PlacesManager.h"
-#include "PTN_Engine/TransitionsManager.h"
-#include <atomic>
-#include <map>
-#include <shared_mutex>
-
-namespace ptne
-{
-
-class IActionFunctor;
-class IConditionFunctor;
-class IActionsExecutor;
-class JobQueue;
-class Place;
-class Transition;
-
-using SharedPtrPlace = std::shared_ptr<Place>;
-using WeakPtrPlace = std::weak_ptr<Place>;
-
-
-//! Implements the Petri net logic.
-class PTN_EngineImp final : public IPTN_EngineEL
-{
-public:
-	~PTN_EngineImp() override;
-	explicit PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
-	PTN_EngineImp(const PTN_EngineImp &) = delete;
-	PTN_EngineImp(PTN_EngineImp &&) = delete;
-	PTN_EngineImp &operator=(const PTN_EngineImp &) = delete;
-	PTN_EngineImp &operator=(PTN_EngineImp &&) = delete;
-
-	PTN_Engine::ACTIONS_THREAD_OPTION getActionsThreadOption() const override;
-
-	//!
-	//! \brief Indicates if there are new tokens in any input places.
-	//! \return True of there is a new token in an input place.
-	//!
-	bool getNewInputReceived() const override;
-
-	void addArc(const ArcProperties &arcProperties) const;
-
-	//!
-	//! Clear the token counter from all input places.
-	//!
-	void clearInputPlaces();
-
-	void clearNet();
-
-	void createPlace(PlaceProperties placeProperties);
-
-	void createTransition(const TransitionProperties &transitionProperties);
-
-	//!
-	//! \brief Gets the transitions that are currently enabled.
-	//! \return Weak pointers to the transitions that are enabled.
-	//!
-	std::vector<std::weak_ptr<Transition>> enabledTransitions() const;
-
-	//!
-	//! Start the petri net event loop.
-	//! \param log Flag logging the state of the net on or off.
-	//! \param o Log output stream.
-	//!
-	void execute(const bool log = false, std::ostream &o = std::cout);
-
-	//!
-	//! \brief Gets the current sleep time set in the event loop.
-	//! \return The sleep time of the event loop.
-	//!
-	PTN_Engine::EventLoopSleepDuration getEventLoopSleepDuration() const;
-
-	//!
-	//! Return the number of tokens in a given place.
-	//! \param place The name of the place to get the number of tokens from.
-	//! \return The number of tokens present in the place.
-	//!
-	size_t getNumberOfTokens(const std::string &place) const;
-
-	std::vector<PlaceProperties> getPlacesProperties() const;
-
-	std::vector<TransitionProperties> getTransitionsProperties() const;
-
-	//!
-	//! Add a token in an input place.
-	//! \param place Name of the place to be incremented.
-	//!
-	void incrementInputPlace(const std::string &place);
-
-	bool isEventLoopRunning() const;
-
-	//!
-	//! Print the petri net places and number of tokens.
-	//! \param o Output stream.
-	//!
-	void printState(std::ostream &o) const;
-
-	//!
-	//! Register an action to be called by the Petri net.
-	//! \param name The name of the place.
-	//! \param action The function to be called once a token enters the place.
-	//!
-	void registerAction(const std::string &name, const ActionFunction &action);
-
-	//!
-	//! Register a condition
-	//! \param name The name of the condition
-	//! \param conditions A function pointer to a condition.
-	//!
-	void registerCondition(const std::string &name, const ConditionFunction &condition);
-
-	void removeArc(const ArcProperties &arcProperties) const;
-
-	//! Specify the thread where the actions should be run.
-	void setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
-
-	//!
-	//! \brief Set the sleep duration of the event loop.
-	//! \param sleepDuration - Time the event loop takes until it checks for new inputs.
-	//!
-	void setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration);
-
-	//!
-	//! \brief Stop the execution of the petri net.
-	//!
-	void stop() noexcept;
-
-private:
-	//!
-	//! \brief Execute the Petri net.
-	//! \param log
-	//! \param o
-	//! \return
-	//!
-	bool executeInt(const bool log = false, std::ostream &o = std::cout) override;
-
-	//!
-	//! \brief createAnonymousConditions - Create activation conditions without proiding a name.
-	//! \param conditions
-	//! \return
-	//!
-	std::vector<std::pair<std::string, ConditionFunction>>
-	createAnonymousConditions(const std::vector<ConditionFunction> &conditions) const;
-
-	//!
-	//! \brief Create a new transition in the petri net.
-	//! \param name - name of the transition
-	//! \param activationArcs
-	//! \param destinationArcs
-	//! \param inhibitorArcs
-	//! \param additionalConditions - boolean functions that provide additional conditions, necessary to fire a
-	//! transition. \param requireNoActionsInExecution - flag that determines if the on enter actions of each
-	//! activation place, must have finished before fireing the transition.
-	//!
-	void createTransition(const std::string &name,
-						  const std::vector<ArcProperties> &activationArcs,
-						  const std::vector<ArcProperties> &destinationArcs,
-						  const std::vector<ArcProperties> &inhibitorArcs,
-						  const std::vector<std::pair<std::string, ConditionFunction>> &additionalConditions,
-						  const bool requireNoActionsInExecution);
-
-	//!
-	//! \brief Flags or clears flag of new tokens in input places.
-	//! \param newInputReceived - The new value for the new input received flag.
-	//!
-	void setNewInputReceived(const bool newInputReceived);
-
-	//! Container with all the actions available to this Petri net.
-	ManagedContainer<ActionFunction> m_actions;
-
-	//! Executes the actions associated to each place, when tokens enter or exit them.z
-	std::shared_ptr<IActionsExecutor> m_actionsExecutor;
-
-	//! The executors of all the options used so far, an executor that is no longer in use may have pending actions.
-	std::map<PTN_Engine::ACTIONS_THREAD_OPTION, std::shared_ptr<IActionsExecutor>> m_actionsExecutors;
-
-	//! Determines how the actions will be executed.
-	PTN_Engine::ACTIONS_THREAD_OPTION m_actionsThreadOption;
-
-	//! Mutex to synchronize m_actionsThreadOption.
-	mutable std::shared_mutex m_actionsThreadOptionMutex;
-
-	//! Conditions that can be used by the Petri net.
-	ManagedContainer<ConditionFunction> m_conditions;
-
-	//! Loop that processes events and executes the Petri net.
-	EventLoop m_eventLoop;
-
-	//! Flag reporting a new input event.
-	std::atomic<bool> m_newInputReceived = false;
-
-	PlacesManager m_places;
-
-	TransitionsManager m_transitions;
-};
-
-} // namespace ptne
+/*
+ * This file is part of PTN Engine
+ *
+ * Copyright (c) 2017 Eduardo Valgôde
+ * Copyright (c) 2021 Kale Evans
+ * Copyright (c) 2024 Eduardo Valgôde
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ * http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ */
+
+#pragma once
+
+#include "PTN_Engine/EventLoop.h"
+#include "PTN_Engine/IPTN_EngineEL.h"
+#include "PTN_Engine/ManagedContainer.h"
+#include "PTN_Engine/PTN_Engine.h"
+#include "PTN_Engine/Place.h"
+#include "PTN_Engine/PlacesManager.h"
+#include "PTN_Engine/TransitionsManager.h"
+#include <atomic>
+#include <map>
+#include <shared_mutex>
+
+namespace ptne
+{
+
+class IActionFunctor;
+class IConditionFunctor;
+class IActionsExecutor;
+class JobQueue;
+class Place;
+class Transition;
+
+using SharedPtrPlace = std::shared_ptr<Place>;
+using WeakPtrPlace = std::weak_ptr<Place>;
+
+
+//! Implements the Petri net logic.
+class PTN_EngineImp final : public IPTN_EngineEL
+{
+public:
+	~PTN_EngineImp() override;
+	explicit PTN_EngineImp(PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
+	PTN_EngineImp(const PTN_EngineImp &) = delete;
+	PTN_EngineImp(PTN_EngineImp &&) = delete;
+	PTN_EngineImp &operator=(const PTN_EngineImp &) = delete;
+	PTN_EngineImp &operator=(PTN_EngineImp &&) = delete;
+
+	PTN_Engine::ACTIONS_THREAD_OPTION getActionsThreadOption() const override;
+
+	//!
+	//! \brief Indicates if there are new tokens in any input places.
+	//! \return True of there is a new token in an input place.
+	//!
+	bool getNewInputReceived() const override;
+
+	void addArc(const ArcProperties &arcProperties) const;
+
+	//!
+	//! Clear the token counter from all input places.
+	//!
+	void clearInputPlaces();
+
+	void clearNet();
+
+	void createPlace(PlaceProperties placeProperties);
+
+	void createTransition(const TransitionProperties &transitionProperties);
+
+	//!
+	//! \brief Gets the transitions that are currently enabled.
+	//! \return Weak pointers to the transitions that are enabled.
+	//!
+	std::vector<std::weak_ptr<Transition>> enabledTransitions() const;
+
+	//!
+	//! Start the petri net event loop.
+	//! \param log Flag logging the state of the net on or off.
+	//! \param o Log output stream.
+	//!
+	void execute(const bool log = false, std::ostream &o = std::cout);
+
+	//!
+	//! \brief Gets the current sleep time set in the event loop.
+	//! \return The sleep time of the event loop.
+	//!
+	PTN_Engine::EventLoopSleepDuration getEventLoopSleepDuration() const;
+
+	//!
+	//! Return the number of tokens in a given place.
+	//! \param place The name of the place to get the number of tokens from.
+	//! \return The number of tokens present in the place.
+	//!
+	size_t getNumberOfTokens(const std::string &place) const;
+
+	std::vector<PlaceProperties> getPlacesProperties() const;
+
+	std::vector<TransitionProperties> getTransitionsProperties() const;
+
+	//!
+	//! Add a token in an input place.
+	//! \param place Name of the place to be incremented.
+	//!
+	void incrementInputPlace(const std::string &place);
+
+	bool isEventLoopRunning() const;
+
+	//!
+	//! Print the petri net places and number of tokens.
+	//! \param o Output stream.
+	//!
+	void printState(std::ostream &o) const;
+
+	//!
+	//! Register an action to be called by the Petri net.
+	//! \param name The name of the place.
+	//! \param action The function to be called once a token enters the place.
+	//!
+	void registerAction(const std::string &name, const ActionFunction &action);
+
+	//!
+	//! Register a condition
+	//! \param name The name of the condition
+	//! \param conditions A function pointer to a condition.
+	//!
+	void registerCondition(const std::string &name, const ConditionFunction &condition);
+
+	void removeArc(const ArcProperties &arcProperties) const;
+
+	//! Specify the thread where the actions should be run.
+	void setActionsThreadOption(const PTN_Engine::ACTIONS_THREAD_OPTION actionsThreadOption);
+
+	//!
+	//! \brief Set the sleep duration of the event loop.
+	//! \param sleepDuration - Time the event loop takes until it checks for new inputs.
+	//!
+	void setEventLoopSleepDuration(const PTN_Engine::EventLoopSleepDuration sleepDuration);
+
+	//!
+	//! \brief Stop the execution of the petri net.
+	//!
+	void stop() noexcept;
+
+private:
+	//!
+	//! \brief Execute the Petri net.
+	//! \param log
+	//! \param o
+	//! \return
+	//!
+	bool executeInt(const bool log = false, std::ostream &o = std::cout) override;
+
+	//!
+	//! \brief createAnonymousConditions - Create activation conditions without proiding a name.
+	//! \param conditions
+	//! \return
+	//!
+	std::vector<std::pair<std::string, ConditionFunction>>
+	createAnonymousConditions(const std::vector<ConditionFunction> &conditions) const;
+
+	//!
+	//! \brief Create a new transition in the petri net.
+	//! \param name - name of the transition
+	//! \param activationArcs
+	//! \param destinationArcs
+	//! \param inhibitorArcs
+	//! \param additionalConditions - boolean functions that provide additional conditions, necessary to fire a
+	//! transition. \param requireNoActionsInExecution - flag that determines if the on enter actions of each
+	//! activation place, must have finished before fireing the transition.
+	//!
+	void createTransition(const std::string &name,
+						  const std::vector<ArcProperties> &activationArcs,
+						  const std::vector<ArcProperties> &destinationArcs,
+						  const std::vector<ArcProperties> &inhibitorArcs,
+						  const std::vector<std::pair<std::string, ConditionFunction>> &additionalConditions,
+						  const bool requireNoActionsInExecution);
+
+	//!
+	//! \brief Flags or clears flag of new tokens in input places.
+	//! \param newInputReceived - The new value for the new input received flag.
+	//!
+	void setNewInputReceived(const bool newInputReceived);
+
+	//! Container with all the actions available to this Petri net.
+	ManagedContainer<ActionFunction> m_actions;
+
+	//! Executes the actions associated to each place, when tokens enter or exit them.z
+	std::shared_ptr<IActionsExecutor> m_actionsExecutor;
+
+	//! The executors of all the options used so far, an executor that is no longer in use may have pending actions.
+	std::map<PTN_Engine::ACTIONS_THREAD_OPTION, std::shared_ptr<IActionsExecutor>> m_actionsExecutors;
+
+	//! Determines how the actions will be executed.
+	PTN_Engine::ACTIONS_THREAD_OPTION m_actionsThreadOption;
+
+	//! Mutex to synchronize m_actionsThreadOption.
+	mutable std::shared_mutex m_actionsThreadOptionMutex;
+
+	//! Conditions that can be used by the Petri net.
+	ManagedContainer<ConditionFunction> m_conditions;
+
+	//! Loop that processes events and executes the Petri net.
+	EventLoop m_eventLoop;
+
+	//! Flag reporting a new input event.
+	std::atomic<bool> m_newInputReceived = false;
+
+	PlacesManager m_places;
+
+	TransitionsManager m_transitions;
+};
+
+} // namespace ptne
-- 
2.43.0


From 6dc80c70ce3dd8ec940802be15b6a9437b35fed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 18/19] fix: execute() that cannot start its thread leaves the
 event loop stopped

---
 PTN_Engine/EventLoop.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/PTN_Engine/EventLoop.cpp b/PTN_Engine/EventLoop.cpp
index 4072198..aa54fbc 100755
--- a/PTN_Engine/EventLoop.cpp
+++ b/PTN_Engine/EventLoop.cpp
@@ -19,6 +19,7 @@
 #include "PTN_Engine/EventLoop.h"
 #include "PTN_Engine/IPTN_EngineEL.h"
 #include "PTN_Engine/PTN_Exception.h"
+#include <system_error>
 #include <thread>
 
 namespace ptne
@@ -72,7 +73,15 @@ void EventLoop::start(const bool log, ostream &o)
 		}
 		m_barrier = make_unique<barrier<>>(2);
 		m_eventLoopThreadRunning = true;
-		m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		try
+		{
+			m_eventLoopThread = jthread(bind_front(&EventLoop::run, this), log, ref(o));
+		}
+		catch (const system_error &)
+		{
+			m_eventLoopThreadRunning = false;
+			throw;
+		}
 	}
 }
 
-- 
2.43.0


From 08c252de6a087de6de68eb6544620f57603c0859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 19/19] fix: a detached action whose thread cannot be started
 is not counted as in execution

---
 PTN_Engine/Executor/DetachedExecutor.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/PTN_Engine/Executor/DetachedExecutor.cpp b/PTN_Engine/Executor/DetachedExecutor.cpp
index 42afc35..08fc812 100644
--- a/PTN_Engine/Executor/DetachedExecutor.cpp
+++ b/PTN_Engine/Executor/DetachedExecutor.cpp
@@ -18,6 +18,7 @@
 
 #include "PTN_Engine/Executor/DetachedExecutor.h"
 #include <atomic>
+#include <system_error>
 #include <thread>
 
 namespace ptne
@@ -33,8 +34,16 @@ void DetachedExecutor::executeAction(const ActionFunction &action, atomic<size_t
 		action();
 		--actionsInExecution;
 	};
-	auto t = thread(job);
-	t.detach();
+	try
+	{
+		auto t = thread(job);
+		t.detach();
+	}
+	catch (const system_error &)
+	{
+		--actionsInExecution;
+		throw;
+	}
 }
 
 } // namespace ptne
-- 
2.43.0

