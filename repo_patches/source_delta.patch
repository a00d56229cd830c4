From 03ec34e498ad2abf34d1380a40cc241a8d4d7841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 01/73] fix: ArrayBlockingQueue timed waits no longer depend on
 wall clock steps

---
 src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
index db186db..6562d99 100644
--- a/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
+++ b/src/main/cpp/Balau/Container/ArrayBlockingQueue.hpp
@@ -131,12 +131,12 @@ template <typename T> class ArrayBlockingQueue : public BlockingQueue<T> {
 		if (full()) {
 			queueIsFull(object);
 
-			auto startTime = std::chrono::system_clock::now();
+			auto startTime = std::chrono::steady_clock::now();
 			auto waitTimeRemaining = std::chrono::duration_cast<std::chrono::nanoseconds>(waitTime);
 
 			while (full() && waitTimeRemaining > std::chrono::nanoseconds(0)) {
 				enqueueCondition.wait_for(lock, waitTimeRemaining);
-				waitTimeRemaining = waitTime - (std::chrono::system_clock::now() - startTime);
+				waitTimeRemaining = waitTime - (std::chrono::steady_clock::now() - startTime);
 			}
 
 			if (full()) {
@@ -191,12 +191,12 @@ template <typename T> class ArrayBlockingQueue : public BlockingQueue<T> {
 		std::unique_lock<std::mutex> lock(mutex);
 
 		if (empty()) {
-			auto startTime = std::chrono::system_clock::now();
+			auto startTime = std::chrono::steady_clock::now();
 			auto waitTimeRemaining = std::chrono::duration_cast<std::chrono::nanoseconds>(waitTime);
 
 			while (empty() && waitTimeRemaining > std::chrono::nanoseconds(0)) {
 				dequeueCondition.wait_for(lock, waitTimeRemaining);
-				waitTimeRemaining = waitTime - (std::chrono::system_clock::now() - startTime);
+				waitTimeRemaining = waitTime - (std::chrono::steady_clock::now() - startTime);
 			}
 		}
 
-- 
2.43.0


From ddb7dc28944ef8ebbff234937a511ac66c9aceb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 02/73] fix: SingleTimeExecutor starts in the not executed
 state

---
 src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
index 2db6545..06d3e75 100644
--- a/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
+++ b/src/main/cpp/Balau/Concurrent/SingleTimeExecutor.hpp
@@ -46,7 +46,8 @@ class SingleTimeExecutor {
 	///
 	public: explicit SingleTimeExecutor(std::function<void ()> code_)
 		: code(std::move(code_))
-		, destructorCode() {}
+		, destructorCode()
+		, executed(false) {}
 
 	///
 	/// Create a single time executor with a code block and a destructor code block.
@@ -57,7 +58,8 @@ class SingleTimeExecutor {
 	///
 	public: SingleTimeExecutor(std::function<void ()> code_, std::function<void ()> destructorCode_)
 		: code(std::move(code_))
-		, destructorCode(std::move(destructorCode_)) {}
+		, destructorCode(std::move(destructorCode_))
+		, executed(false) {}
 
 	///
 	/// Destroy the single time executor.
-- 
2.43.0


From 518ad2b9134cc46e18902909a18e5c9acc080e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 03/73] fix: ThreadLocalInstance is usable with types that are
 not default constructible

---
 src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
index 3af30cf..44a6043 100644
--- a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
+++ b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
@@ -65,12 +65,12 @@ class ThreadLocalInstance<T, typename std::enable_if<std::is_default_constructib
 };
 
 template <typename T>
-class ThreadLocalInstance<T, std::negation<typename std::enable_if<std::is_default_constructible<T>::value>::type>> {
+class ThreadLocalInstance<T, typename std::enable_if<!std::is_default_constructible<T>::value>::type> {
 	///
 	/// Get the thread local instance, instantiating it with the supplied function if necessary.
 	///
 	public: T & operator () (std::function<T * ()> instantiate) {
-		if (instance.get()) {
+		if (!instance.get()) {
 			instance.reset(instantiate());
 		}
 
-- 
2.43.0


From bf879651918f75d40ab8385294e9e2a0135ac3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 04/73] fix: Injector callback lists are constructed before the
 configurations' calls are added

---
 src/main/cpp/Balau/Application/Injector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 65f02a7..287bd69 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1737,12 +1737,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 	// Main injector state.
 	private: const std::shared_ptr<const Injector> parent;
-	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 
 	// Data structures for callbacks.
+	// Declared before the bindings, because createBindings adds the calls of the configurations.
 	private: mutable std::list<std::function<void (const Injector& )>> postConstructionCalls;
 	private: mutable std::list<std::function<void ()>> preDestructionCalls;
 	private: mutable std::recursive_mutex callSync;
+
+	private: const std::shared_ptr<const Impl::BindingMap> bindings;
 };
 
 } // namespace Balau
-- 
2.43.0


From 046defba58dfae4e3d275417205a6cbcf9c49ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 05/73] fix: static singletons registered by configurations or
 with temporary names are set up

---
 .../cpp/Balau/Application/ApplicationConfiguration.hpp    | 8 +++++++-
 src/main/cpp/Balau/Application/Injector.hpp               | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index ff5de47..0fa4225 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -99,7 +99,13 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	/// @param name an optional binding name
 	///
 	protected: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		staticSingletonPostConstructionCalls.emplace_back(new StaticSingletonRegistration<T>(ptrPtr, name));
+		// The injector is a template parameter because the Injector class is not complete here.
+		postConstructionCalls.push_back(
+			[ptrPtr, bindingName = std::string(name)] (const auto & injector) {
+				*ptrPtr = injector.template getShared<T>(bindingName);
+			}
+		);
+
 		preDestructionCalls.push_back([ptrPtr] () { ptrPtr->reset(); });
 	}
 
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 287bd69..6ac6ec2 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -126,7 +126,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @param name an optional binding name
 	///
 	public: template <typename T> void registerStaticSingleton(std::shared_ptr<T> * ptrPtr, std::string_view name = std::string_view()) const {
-		registerPostConstructionCallImpl([ptrPtr, name] (const Injector & injector) { *ptrPtr  = injector.getShared<T>(name); });
+		// The call is run later, thus the name needs to be copied.
+		registerPostConstructionCallImpl(
+			[ptrPtr, bindingName = std::string(name)] (const Injector & injector) {
+				*ptrPtr = injector.getShared<T>(bindingName);
+			}
+		);
+
 		registerPreDestructionCallImpl([ptrPtr] () { ptrPtr->reset(); });
 	}
 
-- 
2.43.0


From 9c7978f242dd4f92b96c316e871df11e58b61f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:18 +0000
Subject: [PATCH 06/73] fix: const requests to a child injector use its own
 non-const bindings before the parent's

---
 src/main/cpp/Balau/Application/Injector.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 6ac6ec2..641ad23 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1269,6 +1269,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
+		} else if (hasNonConstBinding<Impl::BindingMetaType::Reference, T>(name)) {
+			return getReferenceImpl<typename std::remove_const<T>::type>(name);
 		} else if (parent) {
 			return parent->getReferenceImpl<T>(name);
 		} else {
@@ -1359,6 +1361,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
+		} else if (hasNonConstBinding<Impl::BindingMetaType::Shared, BaseT>(name)) {
+			return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name);
 		} else {
@@ -1484,6 +1488,15 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return bindings->hasBinding(keyView) || (parent && parent->hasBinding(keyView));
 	}
 
+	// Used to determine whether a const request can be satisfied by a non-const binding
+	// of this injector, which takes precedence over the bindings of the parent.
+	private: template <Impl::BindingMetaType MetaT, typename T> bool hasNonConstBinding(std::string_view name) const {
+		using NonConstT = typename std::remove_const<T>::type;
+
+		return std::is_const<T>::value
+			&& bindings->hasBinding(Impl::BindingKeyView(typeid(Impl::BindingKeyType<MetaT, NonConstT>), name));
+	}
+
 	public: Injector(const Injector &) = delete;
 	public: Injector & operator = (const Injector &) = delete;
 
-- 
2.43.0


From 7df8669e64fc36b4e3ef04fa1fda992bea7945c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 07/73] fix: a logging namespace with stream properties does
 not inherit its ancestors' stream properties

---
 .../cpp/Balau/Logging/Impl/LoggingState.cpp   | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 1153364..3d36d67 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -662,16 +662,18 @@ void LoggingState::propagateConfiguration(LoggerTree & theLoggers) {
 			Logger & parentLogger = *parent->value.getLogger();
 			auto & parentProps = parentLogger.properties;
 
+			// Special treatment is required for stream properties.
+			// Do not propagate the parent's stream properties if
+			// there is a single stream property in the child.
+			const bool hasStreamProps = std::any_of(
+				  loggerProps.begin()
+				, loggerProps.end()
+				, [&streamStr] (const auto & p) { return Strings::endsWith(p.first, streamStr); }
+			);
+
 			for (auto & parentProp : parentProps) {
-				if (Strings::endsWith(parentProp.first, streamStr)) {
-					// Special treatment is required for stream properties.
-					// Do not propagate the parent's stream properties if
-					// there is a single stream property in the child.
-					for (auto & loggerProp : loggerProps) {
-						if (Strings::endsWith(loggerProp.first, streamStr)) {
-							continue;
-						}
-					}
+				if (hasStreamProps && Strings::endsWith(parentProp.first, streamStr)) {
+					continue;
 				}
 
 				if (loggerProps.find(parentProp.first) == loggerProps.end()) {
-- 
2.43.0


From 312d1474350063669d95a7a8a55c784056217f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 08/73] fix: log messages with fewer parameters than
 placeholders are padded

---
 src/main/cpp/Balau/Logging/Logger.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 98eac46..45c13fd 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -282,19 +282,18 @@ void Logger::logMessage(const SourceCodeLocation & location,
 	auto timePoint = System::SystemClock().now();
 	auto messageItems = textToMessageItems(message, parameterCount);
 	LoggerOStringStream messageTextStream;
-	const LoggerStringVector * finalParameters;
+	const LoggerStringVector * finalParameters = &parameters;
+	LoggerStringVector replacementParameters;
 
 	if (parameters.size() < parameterCount) {
 		// The logging message does not have enough parameters.
-		LoggerStringVector replacementParameters = parameters;
+		replacementParameters = parameters;
 
-		while (parameterCount < parameters.size()) {
+		while (replacementParameters.size() < parameterCount) {
 			replacementParameters.emplace_back("????");
 		}
 
 		finalParameters = &replacementParameters;
-	} else {
-		finalParameters = &parameters;
 	}
 
 	auto parameterIterator = finalParameters->begin();
-- 
2.43.0


From 562cd50b3ef7a8f77dd31199d667300f5476025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 09/73] fix: a logging file that cannot be opened is reported
 instead of terminating the process

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp  | 15 ++++++++++++---
 .../cpp/Balau/Logging/Impl/LoggingStreams.cpp     | 15 ++++-----------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index 3d36d67..de34207 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -104,9 +104,18 @@ std::map<std::string, LoggingStreamFactory> LoggingState::createDefaultStreamFac
 				// Do not throw here, as this call is in the execution path of getLogger.
 				// Instead, log to std err and use stdout instead of the file.
 				if (Strings::startsWith(uri, "file:///")) {
-					return static_cast<LoggingStream *>(
-						new FileLoggingStream(std::shared_ptr<System::Clock>(new System::SystemClock()), uri)
-					);
+					try {
+						return static_cast<LoggingStream *>(
+							new FileLoggingStream(std::shared_ptr<System::Clock>(new System::SystemClock()), uri)
+						);
+					} catch (const std::exception & e) {
+						std::cerr << "LOGGING CONFIGURATION ERROR: "
+						          << "Could not open logging file: "
+						          << uri << ": " << e.what()
+						          << ".\n Using stderr as fallback."
+						          << std::endl;
+						return static_cast<LoggingStream *>(new OStreamLoggingStream(std::cerr));
+					}
 				} else {
 					std::cerr << "LOGGING CONFIGURATION ERROR: "
 					          << "Invalid file scheme uri (uri must start with \"file:///\"): "
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
index 10e07f3..6929aa2 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingStreams.cpp
@@ -42,14 +42,13 @@ std::regex FileLoggingStream::dateRegExExact(
 FileLoggingStream::FileLoggingStream(std::shared_ptr<System::Clock> clock_, std::string_view uri)
 	: clock(std::move(clock_))
 	, pathComponents(Util::Vectors::toStringVector(Strings::split(uri, dateRegEx, false)))
-	, running(Strings::occurrences(uri, dateRegEx) == 0) {
+	, running(Strings::occurrences(uri, dateRegEx) != 0) {
+	// Throws if the path cannot be opened.
+	createNewStream();
 
 	// Only run the updater thread if the URI contains date placeholders.
 	if (running) {
-		std::unique_lock<std::mutex> lock(syncMutex);
 		updater = std::thread(updateFunction, this);
-		// Wait until the updater thread unlocks this thread.
-		syncCondition.wait(lock);
 	}
 }
 
@@ -167,13 +166,7 @@ void FileLoggingStream::createNewStream() {
 void FileLoggingStream::updateFunction(FileLoggingStream * const self) {
 	std::unique_lock<std::mutex> lock(self->syncMutex);
 
-	self->createNewStream();
-
-	// Prep the constructor for unlock.
-	// The constructor will unlock when wait is entered in this thread.
-	self->syncCondition.notify_all();
-
-	while (true) {
+	while (self->running) {
 		// The destructor will notify this wait when the system shuts down.
 		self->syncCondition.wait(lock);
 
-- 
2.43.0


From 902fc4d3172dd66c8e8e7c8801880f230a59bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:03 +0000
Subject: [PATCH 10/73] fix: log messages are not cut off at a parameter's NUL
 character

---
 src/main/cpp/Balau/Logging/Logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 45c13fd..5b4e0c7 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -311,7 +311,7 @@ void Logger::logMessage(const SourceCodeLocation & location,
 		, logger.ns
 		, level
 		, location.location
-		, messageText.c_str()
+		, messageText
 		, timePoint
 	);
 
-- 
2.43.0


From 8cf8d0b507671e2e06d37e899756f2b627c8c1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:50 +0000
Subject: [PATCH 11/73] fix: a file path in the logging format no longer cuts
 off lines logged without a location

---
 src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
index 15396ac..d21dfdd 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerItems.hpp
@@ -203,7 +203,9 @@ class FilenameLoggerItem : public LogItem {
 // The full path of the file in which the log message is found.
 class FilePathLoggerItem : public LogItem {
 	public: void write(LoggerItemParameters & parameters) const override {
-		parameters.builder << parameters.location;
+		if (parameters.location != nullptr) {
+			parameters.builder << parameters.location;
+		}
 	}
 };
 
-- 
2.43.0


From 0650917df2b04804e66bdfbadc5cd1d1c28cb56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 12/73] fix: the abbreviated namespace of a logger configured
 through a descendant is complete

---
 src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
index 9213025..a82d1ca 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggerConfigurationVisitor.hpp
@@ -103,7 +103,7 @@ class LoggerConfigurationVisitor {
 			for (size_t m = 0; m < nameSpace.size(); m++) {
 				std::string identifier = std::string(nameSpace[m]);
 				nameSpaceStr += prefix + identifier;
-				std::string thisNs = ns + prefix + (m < nameSpace.size() - 1 ? identifier.substr(0, 1) : identifier);
+				std::string thisNs = ns + prefix + identifier;
 				ns += prefix + identifier.substr(0, 1);
 				prefix = ".";
 				loggerTreeNode = &loggerTreeNode->findOrAddChild(
-- 
2.43.0


From 24e4afb97bb10dbdb831ad86e210c98917c8d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 13/73] fix: Logger::getConfiguration no longer reads the
 properties while they are being reconfigured

---
 src/main/cpp/Balau/Logging/Impl/LoggingState.cpp | 15 +++++++++++++++
 src/main/cpp/Balau/Logging/Impl/LoggingState.hpp |  3 +++
 src/main/cpp/Balau/Logging/Logger.cpp            | 12 +-----------
 3 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
index de34207..18131b8 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.cpp
@@ -227,6 +227,21 @@ Logger & LoggingState::getInstance(std::string_view loggingNamespace) {
 	return *current->value.getLogger();
 }
 
+std::string LoggingState::getConfiguration(const Logger & logger) {
+	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
+	std::ostringstream stream;
+
+	stream << logger.nameSpace << " {\n";
+
+	for (const auto & property : logger.properties) {
+		stream << "    " << property.first << " = " << property.second << "\n";
+	}
+
+	stream << "}\n";
+
+	return stream.str();
+}
+
 void LoggingState::flushAll() {
 	std::lock_guard<std::mutex> lock(loggingStateHolder().mutex);
 	performFlushAll();
diff --git a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
index 5d19941..57c9746 100644
--- a/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
+++ b/src/main/cpp/Balau/Logging/Impl/LoggingState.hpp
@@ -61,6 +61,9 @@ class LoggingState final {
 	// Get the logger which corresponds to the specified namespace.
 	Logger & getInstance(std::string_view loggingNamespace);
 
+	// Get the configuration text of the supplied logger.
+	std::string getConfiguration(const Logger & logger);
+
 	// Flush all logging streams.
 	void flushAll();
 
diff --git a/src/main/cpp/Balau/Logging/Logger.cpp b/src/main/cpp/Balau/Logging/Logger.cpp
index 5b4e0c7..580dae1 100644
--- a/src/main/cpp/Balau/Logging/Logger.cpp
+++ b/src/main/cpp/Balau/Logging/Logger.cpp
@@ -78,17 +78,7 @@ void Logger::lockConfiguration(bool throwOnReconfigure) {
 }
 
 std::string Logger::getConfiguration() const {
-	std::ostringstream stream;
-
-	stream << nameSpace << " {\n";
-
-	for (const auto & property : properties) {
-		stream << "    " << property.first << " = " << property.second << "\n";
-	}
-
-	stream << "}\n";
-
-	return stream.str();
+	return LoggingState::loggingSystemState().getConfiguration(*this);
 }
 
 void Logger::registerLoggingStreamFactory(const std::string & scheme, LoggingStreamFactory factory) {
-- 
2.43.0


From 991ea9eedc6c0aee638d94038a01892efb73e5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 14/73] fix: SharedMemoryQueue::tryDequeue sets its success
 flag

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4811e66..8ece59f 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -491,7 +491,11 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned long receivedSize;
 		unsigned int priority;
 
+		// Assume success until one of the waits times out.
+		success = true;
+
 		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
+			success = false;
 			return T();
 		}
 
@@ -504,7 +508,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -515,6 +519,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 						);
 
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
@@ -525,7 +530,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, this] (CharVector & marshalBuffer,
+				, [waitTime, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
@@ -535,6 +540,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
 						);
 						marshalBuffer = CharVector();
+						success = false;
 						return false;
 					}
 
-- 
2.43.0


From b58d61e6ebb1bb9d27c9da4510b5d4430eb6284b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 15/73] fix: a message dequeued in part by
 SharedMemoryQueue::tryDequeue is kept when it times out again

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 8ece59f..f6c8799 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -537,8 +537,9 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 					                size_t rejected) {
 					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
 						pendingBuffers.emplace_front(
-							PendingBuffer(std::move(queueBuffer), queueBuffer.size(), thisPriority)
+							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
+
 						marshalBuffer = CharVector();
 						success = false;
 						return false;
-- 
2.43.0


From 003ff5f1c7183c3deacaedef176f45e77114eed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 16/73] fix: SharedMemoryQueue::tryDequeue waits for its wait
 time once, not once per chunk

---
 .../Balau/Interprocess/SharedMemoryQueue.hpp  | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index f6c8799..670d9ba 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -491,10 +491,13 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		unsigned long receivedSize;
 		unsigned int priority;
 
+		// The wait time is for the whole message, thus all the chunks share a single deadline.
+		const auto timeout = calculateTimeout(waitTime);
+
 		// Assume success until one of the waits times out.
 		success = true;
 
-		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, waitTime)) {
+		if (!tryDequeueNextBuffer(queueBuffer, receivedSize, priority, 0, timeout)) {
 			success = false;
 			return T();
 		}
@@ -508,12 +511,12 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// The object is split across multiple buffers, potentially interleaved with other buffers.
 			return performMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, &success, this] (CharVector & marshalBuffer,
+				, [timeout, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
 					                size_t rejected) {
-					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
+					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, timeout)) {
 						pendingBuffers.emplace_front(
 							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
@@ -530,12 +533,12 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			// This is a partially dequeued multi-chunk dequeue which was previously placed on the pending queue.
 			return completeMultiChunkDequeue(
 				queueBuffer, receivedSize, priority
-				, [waitTime, &success, this] (CharVector & marshalBuffer,
+				, [timeout, &success, this] (CharVector & marshalBuffer,
 					                CharVector & queueBuffer,
 					                unsigned long & thisReceivedSize,
 					                unsigned int & thisPriority,
 					                size_t rejected) {
-					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, waitTime)) {
+					if (!tryDequeueNextBuffer(queueBuffer, thisReceivedSize, thisPriority, rejected, timeout)) {
 						pendingBuffers.emplace_front(
 							PendingBuffer(std::move(marshalBuffer), marshalBuffer.size(), thisPriority)
 						);
@@ -704,7 +707,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                                   unsigned long & receivedSize,
 	                                   unsigned int & priority,
 	                                   size_t rejectedPendingBuffers,
-	                                   std::chrono::milliseconds waitTime) {
+	                                   const boost::posix_time::ptime & timeout) {
 		if (rejectedPendingBuffers < pendingBuffers.size()) {
 			auto pendingBuffer = pendingBuffers.front();
 			buffer = std::move(pendingBuffer.buffer);
@@ -713,10 +716,6 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			priority = pendingBuffer.priority;
 			return true;
 		} else {
-			boost::posix_time::ptime timeout(boost::posix_time::microsec_clock::universal_time());
-			boost::posix_time::time_duration w = boost::posix_time::milliseconds(waitTime.count());
-			timeout += w;
-
 			buffer.resize(chunkSize);
 
 			if (queue.timed_receive(buffer.data(), buffer.size(), receivedSize, priority, timeout)) {
@@ -728,6 +727,11 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		}
 	}
 
+	// The absolute time (UTC, as required by the message queue) that corresponds to the wait time.
+	private: static boost::posix_time::ptime calculateTimeout(std::chrono::milliseconds waitTime) {
+		return boost::posix_time::microsec_clock::universal_time() + boost::posix_time::milliseconds(waitTime.count());
+	}
+
 	private: using SinkDevice   = boost::iostreams::back_insert_device<CharVector>;
 	private: using SinkBuffer   = boost::iostreams::stream_buffer<SinkDevice>;
 	private: using SourceDevice = boost::iostreams::basic_array_source<char>;
-- 
2.43.0


From ba5bc53d694d81fc1aeb8cb01ffa7f3b783c5114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 17/73] fix: SharedMemoryQueue::tryEnqueue computes its
 deadline in UTC

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 670d9ba..4d45695 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -366,8 +366,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		if (marshalBuffer.size() <= chunkSize) {
 			// The message fits in a single buffer.
-			auto timeout = boost::posix_time::microsec_clock::local_time() + boost::posix_time::millisec(waitTime.count());
-			return queue.timed_send(marshalBuffer.data(), marshalBuffer.size(), priority, timeout);
+			return queue.timed_send(marshalBuffer.data(), marshalBuffer.size(), priority, calculateTimeout(waitTime));
 		} else {
 			// Oversize objects cannot be try enqueued, thus an exception is thrown.
 			ThrowBalauException(
-- 
2.43.0


From ddcb4891fcf38aae6dcc591e07806629fdb0df90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 18/73] fix: SharedMemoryQueue keeps pending messages in their
 order of arrival

---
 .../Balau/Interprocess/SharedMemoryQueue.hpp  | 50 +++++++++++++------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 4d45695..53ed379 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -600,9 +600,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 
 		while (true) {
 			if (queueHeader->sequenceNumber != sequenceNumber) { // Never true on the first iteration.
-				++rejectedPendingBuffers;
-				pendingBuffers.emplace_back(PendingBuffer(std::move(queueBuffer), receivedSize, priority));
-				queueBuffer = CharVector(chunkSize);
+				rejectBuffer(queueBuffer, receivedSize, priority, rejectedPendingBuffers);
 			} else {
 				// This can occur out of order (if the chunks arrive out of order).
 				const size_t copyStart = HeaderSize + queueHeader->chunkNumber * (chunkSize - HeaderSize);
@@ -659,9 +657,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			auto * queueHeader = (const Impl::QueueHeader *) queueBuffer.data();
 
 			if (sequenceNumber != queueHeader->sequenceNumber) {
-				++rejectedPendingBuffers;
-				pendingBuffers.emplace_back(PendingBuffer(std::move(queueBuffer), receivedSize, priority));
-				queueBuffer = CharVector(chunkSize);
+				rejectBuffer(queueBuffer, receivedSize, priority, rejectedPendingBuffers);
 			} else {
 				// This can occur out of order (if the chunks arrive out of order).
 				const size_t copyStart = HeaderSize + (chunkSize - HeaderSize) * queueHeader->chunkNumber;
@@ -677,6 +673,36 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		}
 	}
 
+	//
+	// Take the first pending buffer that was not rejected during the current dequeue.
+	//
+	private: void takePendingBuffer(CharVector & buffer,
+	                                unsigned long & receivedSize,
+	                                unsigned int & priority,
+	                                size_t rejectedPendingBuffers) {
+		auto pendingBuffer = pendingBuffers.begin() + rejectedPendingBuffers;
+		buffer = std::move(pendingBuffer->buffer);
+		receivedSize = pendingBuffer->receivedSize;
+		priority = pendingBuffer->priority;
+		pendingBuffers.erase(pendingBuffer);
+	}
+
+	//
+	// Place a buffer that belongs to another message in the pending list, after the
+	// previously rejected buffers. The pending list thus stays in the order of arrival.
+	//
+	private: void rejectBuffer(CharVector & buffer,
+	                           unsigned long receivedSize,
+	                           unsigned int priority,
+	                           size_t & rejectedPendingBuffers) {
+		pendingBuffers.emplace(
+			pendingBuffers.begin() + rejectedPendingBuffers, std::move(buffer), receivedSize, priority
+		);
+
+		++rejectedPendingBuffers;
+		buffer = CharVector(chunkSize);
+	}
+
 	//
 	// Dequeue next buffer form the pending list if the pending list size is greater
 	// than rejectedPendingBuffers, otherwise dequeue from the shared memory queue.
@@ -686,11 +712,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                                unsigned int & priority,
 	                                size_t rejectedPendingBuffers) {
 		if (rejectedPendingBuffers < pendingBuffers.size()) {
-			auto pendingBuffer = pendingBuffers.front();
-			buffer = std::move(pendingBuffer.buffer);
-			pendingBuffers.pop_front();
-			receivedSize = pendingBuffer.receivedSize;
-			priority = pendingBuffer.priority;
+			takePendingBuffer(buffer, receivedSize, priority, rejectedPendingBuffers);
 		} else {
 			buffer.resize(chunkSize);
 			queue.receive(buffer.data(), buffer.size(), receivedSize, priority);
@@ -708,11 +730,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                                   size_t rejectedPendingBuffers,
 	                                   const boost::posix_time::ptime & timeout) {
 		if (rejectedPendingBuffers < pendingBuffers.size()) {
-			auto pendingBuffer = pendingBuffers.front();
-			buffer = std::move(pendingBuffer.buffer);
-			pendingBuffers.pop_front();
-			receivedSize = pendingBuffer.receivedSize;
-			priority = pendingBuffer.priority;
+			takePendingBuffer(buffer, receivedSize, priority, rejectedPendingBuffers);
 			return true;
 		} else {
 			buffer.resize(chunkSize);
-- 
2.43.0


From eb7ead801c97df11e8534cc15f6d89cd70870bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:01 +0000
Subject: [PATCH 19/73] fix: opening or creating a SharedMemoryQueue compiles
 and uses the existing buffer size

---
 src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 53ed379..92dbb57 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -175,7 +175,6 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 			  OpenOrCreateSelector()
 			, capacity
 			, calculateDefaultBufferSize()
-			, true
 			, std::move(name_)
 			, throwOnOversize_
 		) {}
@@ -200,7 +199,7 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 	                          bool throwOnOversize_ = false)
 		: name(std::move(name_))
 		, queue(openOrCreateQueue(capacity, bufferSize_))
-		, chunkSize(bufferSize_)
+		, chunkSize((unsigned int) queue.get_max_msg_size())
 		, queueState(OpenOrCreateSelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
-- 
2.43.0


From e8b52ee9fa07815c7251c84c38175a490f93035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 20/73] fix: opening or creating an MSharedMemoryObject no
 longer replaces the existing object

---
 src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index ab0490b..b84be3d 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -108,13 +108,11 @@ template <typename T> class MSharedMemoryObject {
 	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
 		const std::string memoryName = name + "_memory";
 
-		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
-
 		segment = boost::interprocess::managed_shared_memory(
 			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
-		object = segment.construct<T>((name + "_object").c_str())(params ...);
+		object = segment.find_or_construct<T>((name + "_object").c_str())(params ...);
 	}
 
 	///
-- 
2.43.0


From 19b502312ea2b73f6dbc8f440f105194977503d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 21/73] fix: MSharedMemoryObject removes its shared memory

---
 .../Interprocess/MSharedMemoryObject.hpp      | 63 +++++++++++++++----
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index b84be3d..c0b0cb8 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -33,6 +33,8 @@
 
 #include <boost/interprocess/managed_shared_memory.hpp>
 
+#include <unistd.h>
+
 namespace Balau::Exception {
 
 ///
@@ -85,7 +87,8 @@ template <typename T> class MSharedMemoryObject {
 	/// The specified name prefix is used.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(CreateOnlySelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(CreateOnlySelector, const std::string & name_, const P & ... params)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 
 		boost::interprocess::shared_memory_object::remove(memoryName.c_str());
@@ -94,6 +97,7 @@ template <typename T> class MSharedMemoryObject {
 			CreateOnlySelector(), memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
+		ownerPid = getpid();
 		object = segment.construct<T>((name + "_object").c_str())(params ...);
 	}
 
@@ -105,14 +109,28 @@ template <typename T> class MSharedMemoryObject {
 	/// If the object already exists, it is opened and the supplied parameters are ignored.
 	///
 	public: template <typename ... P>
-	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name, const P & ... params) {
+	MSharedMemoryObject(OpenOrCreateSelector, const std::string & name_, const P & ... params)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 
 		segment = boost::interprocess::managed_shared_memory(
 			boost::interprocess::open_or_create, memoryName.c_str(), metadataOverhead + sizeof(T)
 		);
 
-		object = segment.find_or_construct<T>((name + "_object").c_str())(params ...);
+		const std::string objectName = name + "_object";
+
+		object = segment.find<T>(objectName.c_str()).first;
+
+		if (object == nullptr) {
+			// The result is null if another process constructed the object in the meantime.
+			object = segment.construct<T>(objectName.c_str(), std::nothrow)(params ...);
+
+			if (object != nullptr) {
+				ownerPid = getpid();
+			} else {
+				object = segment.find_or_construct<T>(objectName.c_str())(params ...);
+			}
+		}
 	}
 
 	///
@@ -122,7 +140,8 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_only, memoryName.c_str());
 		auto item = segment.find<T>((name + "_object").c_str());
@@ -143,7 +162,8 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// @throw NotFoundException if no such shared memory object exists
 	///
-	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name) {
+	public: MSharedMemoryObject(OpenReadOnlySelector, const std::string & name_)
+		: name(name_) {
 		const std::string memoryName = name + "_memory";
 		segment = boost::interprocess::managed_shared_memory(boost::interprocess::open_read_only, memoryName.c_str());
 		auto item = segment.find<T>((name + "_object").c_str());
@@ -160,9 +180,11 @@ template <typename T> class MSharedMemoryObject {
 	///
 	/// Destroy the shared memory object.
 	///
+	/// The name of the shared memory is removed by the instance that created it, in the
+	/// process that created it. Other instances that are still in use remain usable.
+	///
 	public: ~MSharedMemoryObject() {
-		segment.destroy<T>((name + "_memory").c_str());
-		boost::interprocess::shared_memory_object::remove((name + "_object").c_str());
+		removeIfOwner();
 	}
 
 	///
@@ -171,18 +193,26 @@ template <typename T> class MSharedMemoryObject {
 	public: MSharedMemoryObject(MSharedMemoryObject && rhs) noexcept
 		: name(std::move(rhs.name))
 		, segment(std::move(rhs.segment))
-		, object(rhs.object) {
+		, object(rhs.object)
+		, ownerPid(rhs.ownerPid) {
 		rhs.object = nullptr;
+		rhs.ownerPid = 0;
 	}
 
 	///
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: MSharedMemoryObject & operator = (MSharedMemoryObject && rhs) noexcept {
-		name = std::move(rhs.name);
-		segment = std::move(rhs.segment);
-		object = rhs.object;
-		rhs.object = nullptr;
+		if (this != &rhs) {
+			removeIfOwner();
+			name = std::move(rhs.name);
+			segment = std::move(rhs.segment);
+			object = rhs.object;
+			ownerPid = rhs.ownerPid;
+			rhs.object = nullptr;
+			rhs.ownerPid = 0;
+		}
+
 		return *this;
 	}
 
@@ -220,12 +250,21 @@ template <typename T> class MSharedMemoryObject {
 
 	///////////////////////// Private implementation //////////////////////////
 
+	private: void removeIfOwner() {
+		if (ownerPid != 0 && ownerPid == getpid()) {
+			boost::interprocess::shared_memory_object::remove((name + "_memory").c_str());
+		}
+	}
+
 	// Reserved memory for metadata/index used in the allocated block.
 	private: static const size_t metadataOverhead = 512;
 
 	private: std::string name;
 	private: boost::interprocess::managed_shared_memory segment;
 	private: T * object = nullptr;
+
+	// The id of the process that created the shared memory via this instance, otherwise zero.
+	private: pid_t ownerPid = 0;
 };
 
 } // namespace Balau::Interprocess
-- 
2.43.0


From 13cb6d0e5423e6b683650fc6ae44e7c963b17e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 22/73] fix: SharedMemoryQueue removes its message queue

---
 .../cpp/Balau/Interprocess/MSharedMemoryObject.hpp   |  9 ++++++++-
 .../cpp/Balau/Interprocess/SharedMemoryQueue.hpp     | 12 ++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
index c0b0cb8..388a193 100644
--- a/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/MSharedMemoryObject.hpp
@@ -216,6 +216,13 @@ template <typename T> class MSharedMemoryObject {
 		return *this;
 	}
 
+	///
+	/// Did this instance create the shared memory, in this process?
+	///
+	public: bool isOwner() const {
+		return ownerPid != 0 && ownerPid == getpid();
+	}
+
 	///
 	/// Get the shared memory object pointer.
 	///
@@ -251,7 +258,7 @@ template <typename T> class MSharedMemoryObject {
 	///////////////////////// Private implementation //////////////////////////
 
 	private: void removeIfOwner() {
-		if (ownerPid != 0 && ownerPid == getpid()) {
+		if (isOwner()) {
 			boost::interprocess::shared_memory_object::remove((name + "_memory").c_str());
 		}
 	}
diff --git a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
index 92dbb57..cfd36b6 100644
--- a/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
+++ b/src/main/cpp/Balau/Interprocess/SharedMemoryQueue.hpp
@@ -216,6 +216,18 @@ template <typename T> class SharedMemoryQueue : public Container::BlockingQueue<
 		, queueState(OpenOnlySelector(), name + "_queueState")
 		, throwOnOversize(throwOnOversize_) {}
 
+	///
+	/// Destroy the queue.
+	///
+	/// The name of the queue is removed by the instance that created it, in the process
+	/// that created it. Other instances that are still in use remain usable.
+	///
+	public: ~SharedMemoryQueue() {
+		if (queueState.isOwner()) {
+			boost::interprocess::message_queue::remove(name.c_str());
+		}
+	}
+
 	///
 	/// Enqueue an object with a priority of zero.
 	///
-- 
2.43.0


From 8d9ec6d90238a30172da8e8f57d0cdb73856ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 23/73] fix: opening a USharedMemoryObject keeps and maps the
 existing object

---
 .../Interprocess/USharedMemoryObject.hpp      | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index 1573e67..d37a06b 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -91,18 +91,16 @@ template <typename T> class USharedMemoryObject {
 	public: template <typename ... P>
 	USharedMemoryObject(boost::interprocess::open_or_create_t, std::string name_, const P & ... params)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
-
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_or_create, name.c_str(), boost::interprocess::read_write
 		);
 
-		boost::interprocess::offset_t size;
+		boost::interprocess::offset_t size = 0;
 
-		if (shm_obj.get_size(size)) {
-			shm_obj.truncate(sizeof(T));
-			boost::interprocess::mapped_region region(shm_obj, boost::interprocess::read_write);
-			object = new (region.get_address()) T(params ...);
+		if (!sharedMemoryObject.get_size(size) || size == 0) {
+			sharedMemoryObject.truncate(sizeof(T));
+			remap();
+			object = new (mappedRegion.get_address()) T(params ...);
 		} else {
 			remap();
 		}
@@ -113,7 +111,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object sharedMemoryObject(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_write
 		);
 
@@ -125,7 +123,7 @@ template <typename T> class USharedMemoryObject {
 	///
 	public: USharedMemoryObject(boost::interprocess::open_read_only_t, std::string name_)
 		: name(std::move(name_)) {
-		boost::interprocess::shared_memory_object shm_obj(
+		sharedMemoryObject = boost::interprocess::shared_memory_object(
 			boost::interprocess::open_only, name.c_str(), boost::interprocess::read_only
 		);
 
@@ -160,7 +158,7 @@ template <typename T> class USharedMemoryObject {
 	}
 
 	public: void remap() {
-		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
+		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, sharedMemoryObject.get_mode());
 		object = (T *) mappedRegion.get_address();
 	}
 
-- 
2.43.0


From 06dc6effbbcf51957aa8e8e5330d29c599232bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 24/73] fix: only the creator of a USharedMemoryObject removes
 its shared memory

---
 .../Interprocess/USharedMemoryObject.hpp      | 41 +++++++++++++++----
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
index d37a06b..8bdb1c4 100644
--- a/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
+++ b/src/main/cpp/Balau/Interprocess/USharedMemoryObject.hpp
@@ -34,6 +34,8 @@
 #include <boost/interprocess/mapped_region.hpp>
 #include <boost/interprocess/shared_memory_object.hpp>
 
+#include <unistd.h>
+
 namespace Balau::Interprocess {
 
 ///
@@ -76,6 +78,7 @@ template <typename T> class USharedMemoryObject {
 			CreateOnlySelector(), name.c_str(), boost::interprocess::read_write
 		);
 
+		ownerPid = getpid();
 		sharedMemoryObject.truncate(sizeof(T));
 		mappedRegion = boost::interprocess::mapped_region(sharedMemoryObject, boost::interprocess::read_write);
 		object = new (mappedRegion.get_address()) T(params ...);
@@ -98,6 +101,7 @@ template <typename T> class USharedMemoryObject {
 		boost::interprocess::offset_t size = 0;
 
 		if (!sharedMemoryObject.get_size(size) || size == 0) {
+			ownerPid = getpid();
 			sharedMemoryObject.truncate(sizeof(T));
 			remap();
 			object = new (mappedRegion.get_address()) T(params ...);
@@ -137,23 +141,37 @@ template <typename T> class USharedMemoryObject {
 		: name(std::move(rhs.name))
 		, sharedMemoryObject(std::move(rhs.sharedMemoryObject))
 		, mappedRegion(std::move(rhs.mappedRegion))
-		, object(rhs.object) {
+		, object(rhs.object)
+		, ownerPid(rhs.ownerPid) {
 		rhs.object = nullptr;
+		rhs.ownerPid = 0;
 	}
 
+	///
+	/// Destroy the shared memory object.
+	///
+	/// The name of the shared memory is removed by the instance that created it, in the
+	/// process that created it. Other instances that are still in use remain usable.
+	///
 	public: ~USharedMemoryObject() {
-		boost::interprocess::shared_memory_object::remove(name.c_str());
+		removeIfOwner();
 	}
 
 	///
 	/// Assign a shared memory object by moving from a previously created one.
 	///
 	public: USharedMemoryObject & operator = (USharedMemoryObject && rhs) noexcept {
-		name = std::move(rhs.name);
-		sharedMemoryObject = std::move(rhs.sharedMemoryObject);
-		mappedRegion = std::move(rhs.mappedRegion);
-		object = rhs.object;
-		rhs.object = nullptr;
+		if (this != &rhs) {
+			removeIfOwner();
+			name = std::move(rhs.name);
+			sharedMemoryObject = std::move(rhs.sharedMemoryObject);
+			mappedRegion = std::move(rhs.mappedRegion);
+			object = rhs.object;
+			ownerPid = rhs.ownerPid;
+			rhs.object = nullptr;
+			rhs.ownerPid = 0;
+		}
+
 		return *this;
 	}
 
@@ -196,10 +214,19 @@ template <typename T> class USharedMemoryObject {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	private: void removeIfOwner() {
+		if (ownerPid != 0 && ownerPid == getpid()) {
+			boost::interprocess::shared_memory_object::remove(name.c_str());
+		}
+	}
+
 	private: std::string name;
 	private: boost::interprocess::shared_memory_object sharedMemoryObject;
 	private: boost::interprocess::mapped_region mappedRegion;
 	protected: T * object = nullptr;
+
+	// The id of the process that created the shared memory via this instance, otherwise zero.
+	private: pid_t ownerPid = 0;
 };
 
 } // namespace Balau::Interprocess
-- 
2.43.0


From 297916d10d2516d1b50ffa2ff12d0dd445a48748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 25/73] fix: Fork::terminateProcess terminates a running
 process

---
 src/main/cpp/Balau/Concurrent/Fork.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Concurrent/Fork.hpp b/src/main/cpp/Balau/Concurrent/Fork.hpp
index 1e723aa..2ca925e 100644
--- a/src/main/cpp/Balau/Concurrent/Fork.hpp
+++ b/src/main/cpp/Balau/Concurrent/Fork.hpp
@@ -290,10 +290,12 @@ class Fork {
 				}
 
 				default: {
-					kill(pid, SIGKILL);
 					break;
 				}
 			}
+		} else {
+			// The process is running.
+			kill(pid, SIGKILL);
 		}
 
 		return TerminationReport();
-- 
2.43.0


From 002c975367f821e0e90aa79138a363067c7f0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:50 +0000
Subject: [PATCH 26/73] fix: a test that terminates its process is reported
 exactly once and the test run ends

---
 .../Impl/MultiProcessTestRunnerExecutor.hpp   | 141 ++++++++++++------
 .../Impl/ProcessPerTestTestRunnerExecutor.hpp |  10 +-
 .../Balau/Testing/Impl/TestRunnerExecutor.hpp |   5 +
 .../WorkerProcessesTestRunnerExecutor.hpp     |  27 +++-
 4 files changed, 127 insertions(+), 56 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
index cb22811..beb1746 100644
--- a/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/MultiProcessTestRunnerExecutor.hpp
@@ -34,6 +34,7 @@
 #include <boost/interprocess/ipc/message_queue.hpp>
 #include <boost/date_time/posix_time/posix_time_types.hpp>
 #include <sys/wait.h>
+#include <limits>
 
 namespace Balau::Testing::Impl {
 
@@ -55,18 +56,35 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		}
 	};
 
+	private: static constexpr unsigned int NoTest = std::numeric_limits<unsigned int>::max();
+
 	private: struct SharedState {
 		// Shared atomic int, providing the next test case index to run.
 		std::atomic_uint nextTestIndex { 0 };
 
-		// Non shared ints, providing the current test case index that a child process is running.
-		// These are checked when a child process starts up in order to determine if a child process seg-faulted.
-		std::array<unsigned int, TestRunnerLimits::MaxConcurrency> currentTestIndices { 0 };
+		// The test case indices that the child processes are currently running (NoTest when not running a test).
+		// These are checked by the parent when a child process terminates, in order to determine if the child
+		// process terminated in the middle of a test.
+		std::array<std::atomic_uint, TestRunnerLimits::MaxConcurrency> currentTestIndices;
+
+		SharedState() {
+			for (auto & index : currentTestIndices) {
+				index = NoTest;
+			}
+		}
+	};
+
+	// A test whose child process terminated in the middle of it.
+	private: struct TerminatedTest {
+		unsigned int testIndex;
+		int pid;
+		std::string reason;
 	};
 
 	protected: const unsigned int concurrencyLevel;
 	protected: const std::string sharedMemoryNamePrefix;
 	private: Interprocess::MSharedMemoryObject<SharedState> sharedState;
+	private: std::vector<TerminatedTest> terminatedTests;
 
 	protected: MultiProcessTestRunnerExecutor(CompositeWriter & writer_,
 	                                          std::shared_ptr<Impl::TestReportGenerator> & reportGenerator_,
@@ -133,55 +151,90 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 	private: virtual void reportChildProcessCompletion() const = 0;
 
 	private: void runChildLogic(unsigned int childProcessIndex, bool singleShot) {
-		const std::string pidStr = getPidString();
-
-		// Check for previous failed test due to segfault of previous child process.
-		unsigned int testIndex = getCurrentTestIndex(childProcessIndex);
-
-		if (testIndex != 0) {
-			reportSegFaultedTest(pidStr, tests[testIndex]);
-		}
+		const std::string pidStr = getPidString(getpid());
 
-		if (singleShot) {
-			testIndex = claimNextTestIndex(childProcessIndex);
+		while (true) {
+			const unsigned int testIndex = claimNextTestIndex(childProcessIndex);
 
-			if (testIndex < tests.size()) {
-				runTest(pidStr, tests[testIndex]);
+			if (testIndex >= tests.size()) {
+				break; // No more tests to run.
 			}
 
-			// Reset current test index (no segfault).
-			resetCurrentTestIndex(childProcessIndex);
-		} else {
-			while (true) {
-				testIndex = claimNextTestIndex(childProcessIndex);
+			runTest(pidStr, tests[testIndex]);
 
-				if (testIndex >= tests.size()) {
-					break; // No more tests to run.
-				}
+			// The test has finished and its result has been enqueued.
+			resetCurrentTestIndex(childProcessIndex);
 
-				runTest(pidStr, tests[testIndex]);
+			if (singleShot) {
+				break;
 			}
 		}
 	}
 
-	protected: void reportSegFaultedTest(const std::string & pidStr, FlattenedTestCase & testToRun) {
-		std::ostringstream output;
+	//
+	// Commit the test result received from a child process.
+	//
+	// @return the number of results that were committed
+	//
+	protected: size_t commitTestResult(TestResult && testResult) {
+		if (resultIsCommitted(testResult.testIndex)) {
+			return 0;
+		}
 
-		output << std::left << std::setw((int) maxLineLength)
-		       << (pidStr + " - Found test:  " + testToRun.testName) << "  - SEGMENTATION FAULT!\n";
+		processTestResultMessage(std::move(testResult));
+		return 1;
+	}
 
-		std::string outputText = output.str();
+	//
+	// Called by the parent process when a child process has terminated.
+	//
+	// @return true if the child process terminated in the middle of a test
+	//
+	protected: bool childProcessTerminated(unsigned int childProcessIndex, int pid, const std::string & reason) {
+		const unsigned int testIndex = sharedState->currentTestIndices[childProcessIndex];
+
+		if (testIndex >= tests.size()) {
+			return false;
+		}
 
-		resultQueue->enqueue(
-			TestResult(
-				  testToRun.testName
-				, 0
-				, testToRun.group->groupIndex
-				, testToRun.testIndex
-				, TestResult::Result::Error
-				, std::move(outputText)
-			)
-		);
+		resetCurrentTestIndex(childProcessIndex);
+		terminatedTests.emplace_back(TerminatedTest { testIndex, pid, reason });
+		return true;
+	}
+
+	//
+	// Report the tests whose child process terminated in the middle of them.
+	//
+	// Called by the parent process when the result queue is empty, so that
+	// the results of tests that finished are not taken for missing.
+	//
+	// @return the number of results that were committed
+	//
+	protected: size_t reportTerminatedTests() {
+		size_t count = 0;
+
+		for (const auto & terminatedTest : terminatedTests) {
+			const FlattenedTestCase & test = tests[terminatedTest.testIndex];
+			std::ostringstream output;
+
+			output << std::left << std::setw((int) maxLineLength)
+			       << (getPidString(terminatedTest.pid) + " - Test " + test.testName)
+			       << "  - " << terminatedTest.reason << "!\n";
+
+			count += commitTestResult(
+				TestResult(
+					  test.testName
+					, 0
+					, test.group->groupIndex
+					, test.testIndex
+					, TestResult::Result::Error
+					, output.str()
+				)
+			);
+		}
+
+		terminatedTests.clear();
+		return count;
 	}
 
 	// The out of process message queue name is a uuid with a prefix.
@@ -192,18 +245,14 @@ class MultiProcessTestRunnerExecutor : public TestRunnerExecutor {
 		return name;
 	}
 
-	private: static std::string getPidString() {
+	private: static std::string getPidString(int pid) {
 		std::ostringstream str;
-		str << " -" << std::right << std::setw(6) << getpid();
+		str << " -" << std::right << std::setw(6) << pid;
 		return str.str();
 	}
 
-	private: unsigned int getCurrentTestIndex(unsigned int childProcessIndex) {
-		return sharedState->currentTestIndices[childProcessIndex];
-	}
-
 	private: void resetCurrentTestIndex(unsigned int childProcessIndex) {
-		sharedState->currentTestIndices[childProcessIndex] = 0;
+		sharedState->currentTestIndices[childProcessIndex] = NoTest;
 	}
 
 	private: unsigned int claimNextTestIndex(unsigned int childProcessIndex) {
diff --git a/src/main/cpp/Balau/Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp
index b30bd5d..be3c211 100644
--- a/src/main/cpp/Balau/Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp
@@ -66,8 +66,9 @@ class ProcessPerTestTestRunnerExecutor : public MultiProcessTestRunnerExecutor {
 
 			if (testResult.duration != -1) {
 				// A valid test case was dequeued.
-				processTestResultMessage(std::move(testResult));
-				++committedRuns;
+				committedRuns += commitTestResult(std::move(testResult));
+			} else {
+				committedRuns += reportTerminatedTests();
 			}
 
 			checkForChildProcessTermination(childPids, pidIndexByPid);
@@ -88,7 +89,9 @@ class ProcessPerTestTestRunnerExecutor : public MultiProcessTestRunnerExecutor {
 	                                              std::unordered_map<int, size_t> & pidIndexByPid) {
 		int status;
 
-		for (int & pid : childPids) {
+		for (unsigned int childProcessIndex = 0; childProcessIndex < childPids.size(); ++childProcessIndex) {
+			int & pid = childPids[childProcessIndex];
+
 			if (pid <= 0) {
 				continue;
 			}
@@ -107,6 +110,7 @@ class ProcessPerTestTestRunnerExecutor : public MultiProcessTestRunnerExecutor {
 				pid = -1;
 			} else if (result == pid) {
 				pidIndexByPid.erase(pid);
+				childProcessTerminated(childProcessIndex, pid, WIFEXITED(status) ? "PROCESS EXITED" : "SEGMENTATION FAULT");
 				pid = 0;
 			}
 		}
diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index d4fc30e..8e6dda3 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -274,6 +274,11 @@ class TestRunnerExecutor {
 		printAvailableResults();
 	}
 
+	// Has a result been committed for the specified test?
+	protected: bool resultIsCommitted(size_t testIndex) const {
+		return testResults[testIndex].duration != -1;
+	}
+
 	// Advances the committed result index if possible and prints any
 	// available test results in chronological order.
 	protected: void printAvailableResults() {
diff --git a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
index 0aef7a0..ba9f668 100644
--- a/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp
@@ -71,17 +71,20 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 
 			TestResult testResult = resultQueue->tryDequeue();
 
-			if (testResult.duration != -1) {
+			const bool resultReceived = testResult.duration != -1;
+
+			if (resultReceived) {
 				// A valid test case was dequeued.
-				processTestResultMessage(std::move(testResult));
-				++committedRuns;
+				committedRuns += commitTestResult(std::move(testResult));
+			} else {
+				committedRuns += reportTerminatedTests();
 			}
 
 			const std::chrono::nanoseconds elapsed = System::SystemClock().nanotime();
 			const int64_t msToNs100 = 1000 * 1000 * 50; // 50ms
 
 			// Periodically check for abnormally terminated child processes.
-			if ((elapsed - period).count() > msToNs100) {
+			if (!resultReceived || (elapsed - period).count() > msToNs100) {
 				period = elapsed;
 				newChildProcessesRequired = checkForChildProcessTermination(childPids, pidIndexByPid);
 			}
@@ -104,7 +107,9 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 		siginfo_t infop;
 		int options = WEXITED | WNOHANG; // NOLINT
 
-		for (int & pid : childPids) {
+		for (unsigned int childProcessIndex = 0; childProcessIndex < childPids.size(); ++childProcessIndex) {
+			int & pid = childPids[childProcessIndex];
+
 			if (pid <= 0) {
 				continue;
 			}
@@ -124,8 +129,15 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 						}
 
 						pidIndexByPid.erase(pid);
-						// Negative entry in pid vector indicates no regen.
-						pid = -1;
+
+						if (childProcessTerminated(childProcessIndex, pid, "PROCESS EXITED")) {
+							// The process was terminated by a test. A new child process will be created for this slot.
+							pid = 0;
+							childProcessesRegenRequired = true;
+						} else {
+							// Negative entry in pid vector indicates no regen.
+							pid = -1;
+						}
 
 						break;
 					}
@@ -138,6 +150,7 @@ class WorkerProcessesTestRunnerExecutor : public MultiProcessTestRunnerExecutor
 						);
 
 						pidIndexByPid.erase(pid);
+						childProcessTerminated(childProcessIndex, pid, "SEGMENTATION FAULT");
 						// A new child process will be created for this slot.
 						pid = 0;
 						childProcessesRegenRequired = true;
-- 
2.43.0


From 00c33519e586518f199d5b23e07c2aaecdad8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 27/73] fix: OStreamTestWriter serialises the writes of
 concurrent tests

---
 src/main/cpp/Balau/Testing/Writers/StdWriters.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
index 2aabd07..c6de567 100644
--- a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
+++ b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
@@ -77,6 +77,7 @@ class OStreamTestWriter : public TestWriter {
 	public: explicit OStreamTestWriter(std::ostream & stream_) : stream(stream_) {}
 
 	public: void writeString(const std::string & str) override {
+		std::lock_guard<std::mutex> lock(mutex);
 		stream << str;
 	}
 
@@ -87,6 +88,7 @@ class OStreamTestWriter : public TestWriter {
 	////////////////////////// Private implementation /////////////////////////
 
 	private: std::ostream & stream;
+	private: std::mutex mutex;
 };
 
 } // namespace Balau::Testing
-- 
2.43.0


From b6feca6302290b93725e52d60a5f24db179039b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:00 +0000
Subject: [PATCH 28/73] fix: a test run without a report generator no longer
 dereferences a null pointer

---
 src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index 8e6dda3..ee88f21 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -312,7 +312,9 @@ class TestRunnerExecutor {
 							writer << " Group duration (core clock time) = " << durationStr(groupDuration) << "\n";
 
 							// Call the report generator for this completed test group.
+							if (reportGenerator) {
 							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
+						}
 
 							break;
 						}
-- 
2.43.0


From 766696735b02006430ad5f577b4c7a33a4117d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 29/73] fix: test writers flush, so that child processes
 neither lose nor duplicate buffered output

---
 src/main/cpp/Balau/Testing/Writers/StdWriters.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
index c6de567..71f82a3 100644
--- a/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
+++ b/src/main/cpp/Balau/Testing/Writers/StdWriters.hpp
@@ -41,7 +41,8 @@ namespace Balau::Testing {
 ///
 class StdOutTestWriter : public TestWriter {
 	public: void writeString(const std::string & str) override {
-		std::cout << str;
+		// Flushed in order not to lose or duplicate buffered text in child processes.
+		std::cout << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
@@ -57,7 +58,7 @@ class FileTestWriter : public TestWriter {
 
 	public: void writeString(const std::string & str) override {
 		std::lock_guard<std::mutex> lock(mutex);
-		writeResource.writeStream() << str;
+		writeResource.writeStream() << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
@@ -78,7 +79,7 @@ class OStreamTestWriter : public TestWriter {
 
 	public: void writeString(const std::string & str) override {
 		std::lock_guard<std::mutex> lock(mutex);
-		stream << str;
+		stream << str << std::flush;
 	}
 
 	public: std::unique_ptr<TestWriter> clone() const override {
-- 
2.43.0


From 8ad119857d2bccc9ff009713bd6077e722fc9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 30/73] fix: a File can name a file that does not exist (yet)

Newer Boost versions obtain the status when a directory entry is constructed
or queried: constructing a File for a new file threw an exception, and queries
returned an obsolete state.
---
 src/main/cpp/Balau/Resource/File.hpp | 35 ++++++++++++++++------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index d18b354..ae1a673 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -183,28 +183,28 @@ class File : public Uri {
 	///
 	/// Create a file from the supplied Boost path.
 	///
-	public: explicit File(const boost::filesystem::path & entry_) : entry(entry_) {}
+	public: explicit File(const boost::filesystem::path & entry_) : entry(toEntry(entry_)) {}
 
 	///
 	/// Create a file path with the supplied path string.
 	///
 	/// The path must be formatted correctly for the platform.
 	///
-	public: explicit File(const std::string & path) : entry(boost::filesystem::directory_entry(path)) {}
+	public: explicit File(const std::string & path) : entry(toEntry(path)) {}
 
 	///
 	/// Create a file path with the supplied path string.
 	///
 	/// The path must be formatted correctly for the platform.
 	///
-	public: explicit File(const char * path) : entry(boost::filesystem::directory_entry(path)) {}
+	public: explicit File(const char * path) : entry(toEntry(path)) {}
 
 	///
 	/// Create a file path with the supplied path string.
 	///
 	/// The path must be formatted correctly for the platform.
 	///
-	public: explicit File(std::string_view path) : entry(boost::filesystem::directory_entry(std::string(path))) {}
+	public: explicit File(std::string_view path) : entry(toEntry(std::string(path))) {}
 
 	///
 	/// Create a file path with the supplied path string and filename string.
@@ -375,7 +375,7 @@ class File : public Uri {
 	/// @return the current object
 	///
 	public: File & operator = (const boost::filesystem::path & path) {
-		entry = boost::filesystem::directory_entry(path);
+		entry = toEntry(path);
 		return *this;
 	}
 
@@ -385,7 +385,7 @@ class File : public Uri {
 	/// @return true if an item exits in the file system for the file URI
 	///
 	public: bool exists() const {
-		return boost::filesystem::exists(entry);
+		return boost::filesystem::exists(entry.path());
 	}
 
 	///
@@ -422,7 +422,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a directory
 	///
 	public: bool isRegularDirectory() const override {
-		return boost::filesystem::is_directory(entry);
+		return boost::filesystem::is_directory(entry.path());
 	}
 
 	///
@@ -431,7 +431,7 @@ class File : public Uri {
 	/// @return true if the file URI points to a regular file
 	///
 	public: bool isRegularFile() const override {
-		return boost::filesystem::is_regular_file(entry);
+		return boost::filesystem::is_regular_file(entry.path());
 	}
 
 	///
@@ -440,7 +440,7 @@ class File : public Uri {
 	/// @return the parent directory of the file URI
 	///
 	public: File getParentDirectory() const {
-		return File(boost::filesystem::directory_entry(entry.path().parent_path()));
+		return File(toEntry(entry.path().parent_path()));
 	}
 
 	///
@@ -450,7 +450,7 @@ class File : public Uri {
 	///
 	public: File getSubDirectory(std::string subDirectory) const {
 		return File(
-			boost::filesystem::directory_entry(boost::filesystem::path(entry.path()) /= subDirectory)
+			toEntry(boost::filesystem::path(entry.path()) /= subDirectory)
 		);
 	}
 
@@ -460,7 +460,7 @@ class File : public Uri {
 	public: File getChildEntry(std::string child) const {
 		boost::filesystem::path p = entry.path();
 		p /= child;
-		return File(boost::filesystem::directory_entry(p));
+		return File(toEntry(p));
 	}
 
 	///
@@ -587,7 +587,7 @@ class File : public Uri {
 			p /= toString(component);
 		}
 
-		return File(boost::filesystem::directory_entry(p));
+		return File(toEntry(p));
 	}
 
 	///
@@ -628,7 +628,7 @@ class File : public Uri {
 	public: File operator + (const std::string & fragment) const {
 		boost::filesystem::path p = entry.path();
 		p += fragment;
-		return File(boost::filesystem::directory_entry(p));
+		return File(toEntry(p));
 	}
 
 	public: void dispatch(UriDispatcher & dispatcher) const override {
@@ -641,9 +641,14 @@ class File : public Uri {
 
 	friend class UriResolve;
 
+	// A file does not need to exist, thus the status is not obtained on construction.
+	private: static boost::filesystem::directory_entry toEntry(const boost::filesystem::path & path) {
+		return boost::filesystem::directory_entry(path, boost::filesystem::file_status());
+	}
+
 	private: static boost::filesystem::directory_entry create(const std::string & path,
 	                                                          const std::string & name) {
-		boost::filesystem::directory_entry ret(path);
+		boost::filesystem::directory_entry ret = toEntry(path);
 		return append(ret, name);
 	}
 
@@ -651,7 +656,7 @@ class File : public Uri {
 	                                                          const std::string & name) {
 		boost::filesystem::path p = de.path();
 		p /= name;
-		return boost::filesystem::directory_entry(p);
+		return toEntry(p);
 	}
 };
 
-- 
2.43.0


From a5240a081723d7f03f3efda2e7a6f936fd002561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 31/73] fix: reading a file that cannot be opened or read
 reports the failure

Files::toLines returned the lines before a read error as the content of the
file, and all readers returned an empty content when the open failed.
---
 src/main/cpp/Balau/Util/Files.hpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Files.hpp b/src/main/cpp/Balau/Util/Files.hpp
index 895e52f..a29ad04 100644
--- a/src/main/cpp/Balau/Util/Files.hpp
+++ b/src/main/cpp/Balau/Util/Files.hpp
@@ -26,6 +26,7 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_UTIL__FILES
 #define COM_BORA_SOFTWARE__BALAU_UTIL__FILES
 
+#include <Balau/Exception/IOExceptions.hpp>
 #include <Balau/Exception/ResourceExceptions.hpp>
 #include <Balau/Resource/File.hpp>
 
@@ -96,6 +97,7 @@ struct Files final {
 	/// Read all lines of text of the specified file into a string vector.
 	///
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
+	/// @throw CouldNotOpenException if a stream onto the file could not be opened
 	///
 	static std::vector<std::string> toLines(const Resource::File & file) {
 		if (!file.exists()) {
@@ -103,6 +105,11 @@ struct Files final {
 		}
 
 		boost::filesystem::ifstream inputStream(file.getEntry());
+
+		if (!inputStream.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
+		}
+
 		std::vector<std::string> lines;
 		std::string s;
 
@@ -110,6 +117,10 @@ struct Files final {
 			lines.push_back(s);
 		}
 
+		if (inputStream.bad()) {
+			ThrowBalauException(Exception::IOException, "The file could not be read: " + file.toRawString());
+		}
+
 		return lines;
 	}
 
@@ -117,6 +128,7 @@ struct Files final {
 	/// Read the specified file into a string.
 	///
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
+	/// @throw CouldNotOpenException if a stream onto the file could not be opened
 	///
 	static std::string readToString(const Resource::File & file) {
 		if (!file.exists()) {
@@ -124,6 +136,11 @@ struct Files final {
 		}
 
 		boost::filesystem::ifstream inputStream(file.getEntry());
+
+		if (!inputStream.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
+		}
+
 		std::istreambuf_iterator<char> eos;
 		return std::string(std::istreambuf_iterator<char>(inputStream), eos);
 	}
@@ -132,6 +149,7 @@ struct Files final {
 	/// Read the specified file into a character vector.
 	///
 	/// @throw FileNotFoundException if the file does not exist or is not a regular file
+	/// @throw CouldNotOpenException if a stream onto the file could not be opened
 	///
 	static std::vector<char> readToVector(const Resource::File & file) {
 		if (!file.exists()) {
@@ -139,6 +157,11 @@ struct Files final {
 		}
 
 		boost::filesystem::ifstream inputStream(file.getEntry());
+
+		if (!inputStream.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
+		}
+
 		std::istreambuf_iterator<char> eos;
 		return std::vector<char>(std::istreambuf_iterator<char>(inputStream), eos);
 	}
-- 
2.43.0


From b7b6f6c3a30655c9e65cf6e8f8ad39eb32b203c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:17 +0000
Subject: [PATCH 32/73] fix: hashing data that cannot be opened or read reports
 the failure

The hash of the data before the failure was returned.
---
 src/main/cpp/Balau/Util/Hashing.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Hashing.hpp b/src/main/cpp/Balau/Util/Hashing.hpp
index 22a3d78..c2a9dbf 100644
--- a/src/main/cpp/Balau/Util/Hashing.hpp
+++ b/src/main/cpp/Balau/Util/Hashing.hpp
@@ -32,6 +32,7 @@
 #include <Balau/ThirdParty/HashLibrary/sha256.h>
 #include <Balau/ThirdParty/HashLibrary/sha3.h>
 #include <Balau/ThirdParty/HashLibrary/keccak.h>
+#include <Balau/Exception/IOExceptions.hpp>
 #include <Balau/Exception/ResourceExceptions.hpp>
 #include <Balau/Resource/File.hpp>
 #include <Balau/Util/Files.hpp>
@@ -225,7 +226,7 @@ struct Hashing final {
 
 		auto stream = std::make_unique<boost::filesystem::ifstream>(file.getEntry(), std::ios::in | std::ios::binary);
 
-		if (!stream.get()) {
+		if (!stream->is_open()) {
 			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
 		}
 
@@ -241,6 +242,10 @@ struct Hashing final {
 			d.add(buffer.data(), numBytesRead);
 		}
 
+		if (input.bad()) {
+			ThrowBalauException(Exception::IOException, "The data to hash could not be read.");
+		}
+
 		return d.getHash();
 	}
 
-- 
2.43.0


From 411e09eaa2c7488da97ebe2ddd66c7664650dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 33/73] fix: gzip and gunzip report files that cannot be
 opened, read or written

A full disk or a write error left a truncated file behind without any report.
---
 src/main/cpp/Balau/Util/Compression.hpp | 62 ++++++++++++++++++-------
 1 file changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index afabcb2..eacc117 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -26,12 +26,14 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_UTIL__COMPRESSION
 #define COM_BORA_SOFTWARE__BALAU_UTIL__COMPRESSION
 
+#include <Balau/Exception/IOExceptions.hpp>
 #include <Balau/Exception/ResourceExceptions.hpp>
 #include <Balau/Resource/File.hpp>
 #include <Balau/Util/DateTime.hpp>
 #include <Balau/Util/Files.hpp>
 
 #include <algorithm>
+#include <array>
 #include <chrono>
 #include <iosfwd>
 #include <sstream>
@@ -53,12 +55,9 @@ struct GZip final {
 	/// @param output the file to write the gzipped stream to
 	///
 	static void gzip(const Resource::File & input, const Resource::File & output) {
-		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
-		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
-		filter.push(boost::iostreams::gzip_compressor());
-		filter.push(out);
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
-		boost::iostreams::copy(in, filter);
+		checkOpen(in, input);
+		gzip(in, output);
 	}
 
 	///
@@ -68,12 +67,8 @@ struct GZip final {
 	/// @param output the file to write the gzipped stream to
 	///
 	static void gzip(const std::string & input, const Resource::File & output) {
-		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
-		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
-		filter.push(boost::iostreams::gzip_compressor());
-		filter.push(out);
 		std::istringstream in(input, std::ios::binary);
-		boost::iostreams::copy(in, filter);
+		gzip(in, output);
 	}
 
 	///
@@ -84,10 +79,12 @@ struct GZip final {
 	///
 	static void gzip(std::istream & input, const Resource::File & output) {
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
-		boost::iostreams::filtering_streambuf<boost::iostreams::output> filter;
+		checkOpen(out, output);
+		boost::iostreams::filtering_istream filter;
 		filter.push(boost::iostreams::gzip_compressor());
-		filter.push(out);
-		boost::iostreams::copy(input, filter);
+		filter.push(input);
+		copy(filter, out);
+		close(out, output);
 	}
 
 	///
@@ -98,11 +95,14 @@ struct GZip final {
 	///
 	static void gunzip(const Resource::File & input, const Resource::File & output) {
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
-		boost::iostreams::filtering_streambuf<boost::iostreams::input> filter;
+		checkOpen(in, input);
+		boost::iostreams::filtering_istream filter;
 		filter.push(boost::iostreams::gzip_decompressor());
 		filter.push(in);
 		boost::filesystem::ofstream out(output.getEntry(), std::ios::binary);
-		boost::iostreams::copy(filter, out);
+		checkOpen(out, output);
+		copy(filter, out);
+		close(out, output);
 	}
 
 	///
@@ -116,11 +116,12 @@ struct GZip final {
 	///
 	static void gunzip(const Resource::File & input, std::string & output) {
 		boost::filesystem::ifstream in(input.getEntry(), std::ios::binary);
-		boost::iostreams::filtering_streambuf<boost::iostreams::input> filter;
+		checkOpen(in, input);
+		boost::iostreams::filtering_istream filter;
 		filter.push(boost::iostreams::gzip_decompressor());
 		filter.push(in);
 		std::ostringstream out(std::ios::binary);
-		boost::iostreams::copy(filter, out);
+		copy(filter, out);
 		output = out.str();
 	}
 
@@ -143,6 +144,33 @@ struct GZip final {
 	GZip() = delete;
 	GZip(const GZip &) = delete;
 	GZip & operator = (const GZip &) = delete;
+
+	////////////////////////// Private implementation /////////////////////////
+
+	private: template <typename StreamT> static void checkOpen(StreamT & stream, const Resource::File & file) {
+		if (!stream.is_open()) {
+			ThrowBalauException(Exception::CouldNotOpenException, file.clone());
+		}
+	}
+
+	// Errors that occur during the reading are thrown.
+	private: static void copy(std::istream & in, std::ostream & out) {
+		std::array<char, 16 * 1024> buffer {};
+		in.exceptions(std::ios::badbit);
+
+		while (in && out) {
+			in.read(buffer.data(), buffer.size());
+			out.write(buffer.data(), in.gcount());
+		}
+	}
+
+	private: static void close(boost::filesystem::ofstream & out, const Resource::File & file) {
+		out.close();
+
+		if (!out) {
+			ThrowBalauException(Exception::IOException, "The file could not be written: " + file.toRawString());
+		}
+	}
 };
 
 } // namespace Util
-- 
2.43.0


From b509acca4af2998de1cca8886a758f464d2fcf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 34/73] fix: the stream returned by GZip::gunzip owns the file
 that it reads

It used a file stream which was destroyed when the function returned.
---
 src/main/cpp/Balau/Util/Compression.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Compression.hpp b/src/main/cpp/Balau/Util/Compression.hpp
index eacc117..b968405 100644
--- a/src/main/cpp/Balau/Util/Compression.hpp
+++ b/src/main/cpp/Balau/Util/Compression.hpp
@@ -38,6 +38,7 @@
 #include <iosfwd>
 #include <sstream>
 
+#include <boost/iostreams/device/file.hpp>
 #include <boost/iostreams/filtering_stream.hpp>
 
 namespace Balau {
@@ -132,11 +133,12 @@ struct GZip final {
 	/// @return an input stream wrapper supplying a uncompressed stream
 	///
 	static void gunzip(const Resource::File & input, std::unique_ptr<std::istream> & stream) {
-		boost::filesystem::ifstream inputStream(input.getEntry(), std::ios::binary);
-		stream = std::make_unique<boost::iostreams::filtering_istream>();
-		auto * filterStream = static_cast<boost::iostreams::filtering_istream *>(stream.get());
+		boost::iostreams::file_source source(input.toRawString(), std::ios::binary);
+		checkOpen(source, input);
+		auto filterStream = std::make_unique<boost::iostreams::filtering_istream>();
 		filterStream->push(boost::iostreams::gzip_decompressor());
-		filterStream->push(inputStream);
+		filterStream->push(source);
+		stream = std::move(filterStream);
 	}
 
 	///////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From cd0777acf1f72495b4fb855d6da09789898d5455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 35/73] fix: an unzipper that has not been opened is not open

The archive pointer was not initialised: isOpen, close and the destructor
used an indeterminate pointer.
---
 src/main/cpp/Balau/Util/Zip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 4d0e60e..0686c74 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -752,7 +752,7 @@ class Unzipper {
 		ThrowBalauException(Exception::ZipException, errorMessage + ": " + std::string(errorString) + ".", path);
 	}
 
-	protected: void * archive;
+	protected: void * archive = nullptr;
 	protected: Resource::File path;
 };
 
-- 
2.43.0


From 2b33852a56c9b7ee1999901a7d52be4ee83c004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 36/73] fix: reading a zip entry as a string does not write
 beyond the buffer

Entries of more than 2048 bytes were read into a buffer of this size.
---
 src/main/cpp/Balau/Util/Zip.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 0686c74..f7ad346 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -637,7 +637,8 @@ class Unzipper {
 		std::array<char, 1024 * 2> buffer {};
 
 		while (bytesRemaining > 0) {
-			long long bytesRead = zip_fread(zipFile, buffer.data(), bytesRemaining);
+			const long long bytesToRead = std::min(bytesRemaining, (long long) buffer.size());
+			const long long bytesRead = zip_fread(zipFile, buffer.data(), bytesToRead);
 
 			if (bytesRead < 0) {
 				// TODO check that this is the right thing to do.
-- 
2.43.0


From 70399900f3846d4d0ac0b9d3dc244930b9e274e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 37/73] fix: reading a zip entry that is shorter than declared
 fails

The read never ended.
---
 src/main/cpp/Balau/Util/Zip.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index f7ad346..8b88ad3 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -594,7 +594,8 @@ class Unzipper {
 		while (bytesRemaining > 0) {
 			long long bytesRead = zip_fread(zipFile, data, bytesRemaining);
 
-			if (bytesRead < 0) {
+			// The entry ends before its declared size if no bytes are read.
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
@@ -640,7 +641,8 @@ class Unzipper {
 			const long long bytesToRead = std::min(bytesRemaining, (long long) buffer.size());
 			const long long bytesRead = zip_fread(zipFile, buffer.data(), bytesToRead);
 
-			if (bytesRead < 0) {
+			// The entry ends before its declared size if no bytes are read.
+			if (bytesRead <= 0) {
 				// TODO check that this is the right thing to do.
 				if (cleanName.empty()) {
 					throwZipException("Could not read data for entry with index " + ::toString(info.index));
-- 
2.43.0


From ea43174c6a74a7c4bb262e616498de576edd6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 38/73] fix: reading a zip entry verifies the CRC of the data

Damaged data was returned as the content of the entry.
---
 src/main/cpp/Balau/Util/Zip.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 8b88ad3..d3369bd 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -608,6 +608,7 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info, cleanName);
 		return bytes;
 	}
 
@@ -656,9 +657,23 @@ class Unzipper {
 			bytesRemaining -= bytesRead;
 		}
 
+		checkEndOfEntry(zipFile, info, cleanName);
 		return str;
 	}
 
+	// LibZip verifies the CRC of the entry when the end of the data is read.
+	private: void checkEndOfEntry(zip_file_t * zipFile, const ZipEntryInfo & info, const std::string & cleanName) const {
+		char c;
+
+		if (zip_fread(zipFile, &c, 1) != 0) {
+			if (cleanName.empty()) {
+				throwZipException("The data is damaged for entry with index " + ::toString(info.index));
+			} else {
+				throwZipException("The data is damaged for entry with name " + cleanName);
+			}
+		}
+	}
+
 	// Used in the cleanUpName method.
 	protected: enum class EntryType {
 		Directory, File, Either
-- 
2.43.0


From 77b37cc8e68a1666414e41aabb392a9ba4d7b7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 39/73] fix: renaming or deleting a zip directory applies to
 all its entries

The entry of the directory itself was renamed (deleted) again for each
contained entry.
---
 src/main/cpp/Balau/Util/Zip.hpp | 45 ++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index d3369bd..8d8f65c 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -1058,44 +1058,55 @@ class Zipper : public Unzipper {
 
 	// Rename a directory entry and all its descendants.
 	private: void renameDirectory(const std::string & cleanName, const std::string & newCleanName) {
-		std::vector<std::string> names = entryNames();
-
-		for (auto & entryName : names) {
-			if (Strings::startsWith(entryName, cleanName)) {
-				std::string newEntryName = newCleanName + entryName.substr(cleanName.length());
-				renameFile(cleanName, newEntryName);
-			}
+		for (const auto & entry : entriesStartingWith(cleanName)) {
+			renameEntry(entry.first, entry.second, newCleanName + entry.second.substr(cleanName.length()));
 		}
 	}
 
 	// Rename a file entry.
 	private: void renameFile(const std::string & cleanName, const std::string & newCleanName) {
-		const long long index = getEntryIndex(cleanName);
+		renameEntry(getEntryIndex(cleanName), cleanName, newCleanName);
+	}
 
-		if (zip_file_rename(Impl::ZipUtilities<>::cast(archive), static_cast<long long>(index), newCleanName.c_str(), 0) != 0) {
+	private: void renameEntry(long long index, const std::string & cleanName, const std::string & newCleanName) {
+		if (zip_file_rename(Impl::ZipUtilities<>::cast(archive), index, newCleanName.c_str(), 0) != 0) {
 			ThrowBalauException(Exception::ZipException, "Unable to rename entry: " + cleanName, path);
 		}
 	}
 
 	// Delete a directory entry and all its descendants.
 	private: void deleteDirectory(const std::string & cleanName) {
-		std::vector<std::string> names = entryNames();
-
-		for (auto & entryName : names) {
-			if (Strings::startsWith(entryName, cleanName)) {
-				deleteFile(cleanName);
-			}
+		for (const auto & entry : entriesStartingWith(cleanName)) {
+			deleteEntry(entry.first, entry.second);
 		}
 	}
 
 	// Delete a file entry.
 	private: void deleteFile(const std::string & cleanName) {
-		const long long index = getEntryIndex(cleanName);
+		deleteEntry(getEntryIndex(cleanName), cleanName);
+	}
 
-		if (zip_delete(Impl::ZipUtilities<>::cast(archive), static_cast<long long>(index)) != 0) {
+	private: void deleteEntry(long long index, const std::string & cleanName) {
+		if (zip_delete(Impl::ZipUtilities<>::cast(archive), index) != 0) {
 			ThrowBalauException(Exception::ZipException, "Unable to delete entry: " + cleanName, path);
 		}
 	}
+
+	// The indices and names of the entries that start with the prefix, without those already deleted.
+	private: std::vector<std::pair<long long, std::string>> entriesStartingWith(const std::string & prefix) const {
+		std::vector<std::pair<long long, std::string>> entries;
+		const long long count = entryCount();
+
+		for (long long m = 0; m < count; m++) {
+			const char * name = zip_get_name(Impl::ZipUtilities<>::cast(archive), m, ZIP_FL_ENC_GUESS);
+
+			if (name != nullptr && Strings::startsWith(std::string(name), prefix)) {
+				entries.emplace_back(m, name);
+			}
+		}
+
+		return entries;
+	}
 };
 
 namespace Impl {
-- 
2.43.0


From 088d0c04994abbde4168718610d9cffea3ec3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:37 +0000
Subject: [PATCH 40/73] fix: a zipper copies the in memory data of new entries

The data is read during the commit, after the caller may have destroyed it.
---
 src/main/cpp/Balau/Util/Zip.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Zip.hpp b/src/main/cpp/Balau/Util/Zip.hpp
index 8d8f65c..7a783e1 100644
--- a/src/main/cpp/Balau/Util/Zip.hpp
+++ b/src/main/cpp/Balau/Util/Zip.hpp
@@ -914,7 +914,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::vector<char> & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.data(), bytes.size(), 0); });
+		putEntry(name, [&bytes, this] () { return copyToSource(bytes.data(), bytes.size()); });
 	}
 
 	///
@@ -929,7 +929,7 @@ class Zipper : public Unzipper {
 	/// @throw ZipException if the archive is not open
 	///
 	public: void putEntry(const std::string & name, const std::string & bytes) {
-		putEntry(name, [&bytes, this] () { return zip_source_buffer(Impl::ZipUtilities<>::cast(archive), bytes.c_str(), bytes.length(), 0); });
+		putEntry(name, [&bytes, this] () { return copyToSource(bytes.data(), bytes.length()); });
 	}
 
 	///
@@ -1031,6 +1031,24 @@ class Zipper : public Unzipper {
 
 	////////////////////////// Private implementation /////////////////////////
 
+	// The data is required until the commit, and is owned by the source.
+	private: zip_source * copyToSource(const char * data, size_t length) {
+		char * copy = (char *) malloc(length == 0 ? 1 : length);
+
+		if (copy == nullptr) {
+			return nullptr;
+		}
+
+		std::copy(data, data + length, copy);
+		zip_source * const source = zip_source_buffer(Impl::ZipUtilities<>::cast(archive), copy, length, 1);
+
+		if (source == nullptr) {
+			free(copy);
+		}
+
+		return source;
+	}
+
 	// Common implementation for putEntry methods.
 	private: template <typename SourceFunctionT> void putEntry(const std::string & name, SourceFunctionT getSource) {
 		Impl::ZipUtilities<>::checkOpen(*this);
-- 
2.43.0


From 9ba1b41e884a0ef7af15875422bae09f55315795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:52 +0000
Subject: [PATCH 41/73] fix: destroying a file resource that has been moved
 from does not crash

---
 src/main/cpp/Balau/Resource/File.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/File.hpp b/src/main/cpp/Balau/Resource/File.hpp
index ae1a673..b5d8cfe 100644
--- a/src/main/cpp/Balau/Resource/File.hpp
+++ b/src/main/cpp/Balau/Resource/File.hpp
@@ -746,7 +746,9 @@ class FileByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -797,7 +799,9 @@ class FileByteWriteResource : public ByteWriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -854,7 +858,9 @@ class FileUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -911,7 +917,9 @@ class FileUtf32To8WriteResource : public Utf32To8WriteResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From fd53cd371db1d2aec8a16724d95c0cc52dcfb11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 42/73] fix: real random number generators stay within bounds
 that are not positive

The upper bound was made inclusive by moving it downwards if it was zero or
negative, thus numbers below the lower bound were generated for [-1, -1].
---
 src/main/cpp/Balau/Util/Impl/RandomImpl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
index d9fc5ef..808af24 100644
--- a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
@@ -20,16 +20,18 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 #define COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
 
+#include <cmath>
+#include <limits>
 #include <random>
 
 namespace Balau::Util::Impl {
 
 inline double inclusivise(double upper) {
-	return std::nextafter(upper, upper > 0.0 ? upper + 1.0 : upper - 1.0);
+	return std::nextafter(upper, std::numeric_limits<double>::infinity());
 }
 
 inline float inclusivise(float upper) {
-	return std::nextafter(upper, upper > 0.0f ? upper + 1.0f : upper - 1.0f);
+	return std::nextafter(upper, std::numeric_limits<float>::infinity());
 }
 
 template <typename IntegerT> inline IntegerT inclusivise(IntegerT upper) {
-- 
2.43.0


From 293afec87a7c3bc5bb5e991a0b2586f1b106b734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 43/73] fix: an environment configuration can be created from
 URI pointers with type specifications

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index 8d8f0bc..f8c29d3 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -234,7 +234,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	                         const std::shared_ptr<Resource::Uri> & firstTypeSpecifications,
 	                         const UriT & ... moreTypeSpecifications)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ input }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(firstTypeSpecifications, moreTypeSpecifications ...)) {}
+		, typeSpecificationsUris(std::vector<std::shared_ptr<Resource::Uri>> { firstTypeSpecifications, moreTypeSpecifications ... }) {}
 
 	///
 	/// Create an environment configuration by specifying a string for the source properties text and the property types via a properties file.
-- 
2.43.0


From ed3b8a9485919b59cbdfc04350f7645287a373c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:41 +0000
Subject: [PATCH 44/73] fix: parsed texts shorter than a small string keep
 their property names and values

---
 src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
index 1ad720e..208723b 100644
--- a/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
+++ b/src/main/cpp/Balau/Lang/Common/AbstractScanner.hpp
@@ -84,15 +84,25 @@ template <typename TokenT> class AbstractScanner {
 	protected: explicit AbstractScanner(std::shared_ptr<Resource::Uri> uri_)
 		: currentChar(0)
 		, uri(std::move(uri_))
-		, text(::toString(uri->byteReadResource()->readStream()))
+		, text(stableText(::toString(uri->byteReadResource()->readStream())))
 		, currentEndOffset(0) {}
 
 	protected: AbstractScanner(std::shared_ptr<Resource::Uri> uri_, std::istream & inputStream_)
 		: currentChar(0)
 		, uri(std::move(uri_))
-		, text(::toString(inputStream_))
+		, text(stableText(::toString(inputStream_)))
 		, currentEndOffset(0) {}
 
+	//
+	// The AST nodes hold views onto the text, which is moved from the scanner to the
+	// scanned tokens and then to the AST root node. The characters must consequently not
+	// be stored within the string object itself (small string optimisation).
+	//
+	private: static std::string stableText(std::string && text_) {
+		text_.reserve(sizeof(std::string));
+		return std::move(text_);
+	}
+
 	protected: void readNextChar() {
 		if (currentEndOffset == (int) text.length()) {
 			currentChar = std::char_traits<char32_t>::eof();
-- 
2.43.0


From 7098d3151a6c6e4ec91c747332a687f08eb2d81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:43 +0000
Subject: [PATCH 45/73] fix: comment lines that start with an exclamation mark
 are accepted

---
 src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
index b71fab4..52542d0 100644
--- a/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
+++ b/src/main/cpp/Balau/Lang/Property/Parser/PropertyParser.hpp
@@ -388,7 +388,11 @@ class PropertyParser {
 	}
 
 	private: std::unique_ptr<AST::PropertyNode> produceComment() {
-		scannedTokens.expect(PropertyToken::Hash, "Bug? Expected hash token to begin comment production.");
+		scannedTokens.expect(
+			  std::vector<PropertyToken> { PropertyToken::Hash, PropertyToken::Exclamation }
+			, "Bug? Expected hash or exclamation token to begin comment production."
+		);
+
 		ScannedToken token = scannedTokens.get();
 		CodeSpan startCodeSpan = token.codeSpan;
 		std::string_view text = token.text;
-- 
2.43.0


From 3546507d42184ed5b947d7a41a3e1778d998678c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:37 +0000
Subject: [PATCH 46/73] fix: type specifications supplied as text are used by
 the environment configuration

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index f8c29d3..d6dfb2d 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -244,7 +244,7 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 	///
 	public: EnvironmentConfiguration(const std::string & input, const std::string & typeSpecifications_)
 		: propertyStringsHierarchy(Impl::EnvironmentConfigurationBuilderUtils::createPropertyStrings({ std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)) }))
-		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(input)))) {}
+		, typeSpecificationsUris(Util::Vectors::pushBack(std::shared_ptr<Resource::Uri>(new Resource::StringUri(typeSpecifications_)))) {}
 
 	///
 	/// Create an environment configuration by specifying the source properties file.
-- 
2.43.0


From 8cea5f4f4b714c40f94fa3fdbc2d6bcd99f079b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 47/73] fix: a default property value keeps the equals signs it
 contains

---
 .../Impl/PropertyTypeSpecificationVisitor.hpp        | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
index 443aa0f..6f79d90 100644
--- a/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
+++ b/src/main/cpp/Balau/Application/Impl/PropertyTypeSpecificationVisitor.hpp
@@ -95,20 +95,12 @@ class PropertyTypeSpecificationVisitor : public Lang::Property::PropertyVisitor
 				break;
 			}
 
-			case 2: {
-				typeSpecification = std::string(splitValue[0]);
-				defaultValue = std::string(splitValue[1]);
-				break;
-			}
-
 			default: {
-				// The multiple default value text contains one or more '='.. combine into a single piece of text.
+				// The default value text is all the text after the first '=', including any further '='.
 				// It is up to the fromString function to determine if the text is value or not.
 				typeSpecification = std::string(splitValue[0]);
 
-				const size_t length = std::accumulate(
-					splitValue.begin(), splitValue.end(), 0U, [] (size_t l, auto & s) { return l + s.length(); }
-				) - splitValue[0].length();
+				const size_t length = size_t(object.getValue().data() + object.getValue().length() - splitValue[1].data());
 
 				defaultValue = std::string(splitValue[1].data(), length);
 			}
-- 
2.43.0


From af272cf483c3ba7d05038742234b9843f6645bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 48/73] fix: nested property file includes are resolved
 relative to the including file

---
 .../Impl/EnvironmentConfigurationBuilderUtils.hpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
index 6e206a8..096820e 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilderUtils.hpp
@@ -27,6 +27,8 @@
 #include <Balau/Resource/UriResolve.hpp>
 #include <Balau/Util/Containers.hpp>
 
+#include <stack>
+
 namespace Balau {
 
 namespace Impl {
@@ -48,8 +50,9 @@ class EnvironmentConfigurationBuilderUtils {
 	};
 
 	private: class PropertyTrieCreator : public Lang::Property::PropertyVisitor {
-		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_)
-			: uri(uri_) {}
+		public: PropertyTrieCreator(const std::shared_ptr<Resource::Uri> & uri_) {
+			uris.push(uri_);
+		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::Properties & object) override {
 			for (auto & node : object.getNodes()) {
@@ -75,9 +78,11 @@ class EnvironmentConfigurationBuilderUtils {
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::IncludePropertyNode & object) override {
-			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uri, Util::Strings::trim(object.getText()));
+			std::shared_ptr<Resource::Uri> resolvedUri = Resource::UriResolve::resolve(*uris.top(), Util::Strings::trim(object.getText()));
 			auto properties = Lang::Property::PropertyParserService::parse(resolvedUri);
+			uris.push(resolvedUri);
 			visit(payload, properties);
+			uris.pop();
 		}
 
 		public: void visit(Lang::Property::Payload & payload, const Lang::Property::AST::CommentPropertyNode & object) override {
@@ -88,7 +93,7 @@ class EnvironmentConfigurationBuilderUtils {
 			// NOP
 		}
 
-		private: const std::shared_ptr<Resource::Uri> uri;
+		private: std::stack<std::shared_ptr<Resource::Uri>> uris;
 	};
 
 	// Parse the properties sources and create an object trie containing property string objects.
-- 
2.43.0


From fa4f01acaa7872ec68c1f6089237e375069cc25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:05 +0000
Subject: [PATCH 49/73] fix: converting text that is out of range of the long
 integer types is an error

---
 .../cpp/Balau/Type/Impl/FromStringImpl.hpp    | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
index 6ac0ba3..ac44e94 100644
--- a/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
+++ b/src/main/cpp/Balau/Type/Impl/FromStringImpl.hpp
@@ -25,6 +25,8 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/locale.hpp>
 
+#include <cerrno>
+
 namespace Balau::Impl {
 
 // Checks that the string is not empty and throws a conversion exception if it is.
@@ -75,6 +77,17 @@ inline void validateIntegerConversion(const std::string & value, const char * st
 	}
 }
 
+inline void validateIntegerRange(const std::string & value, int error) {
+	using ::toString;
+
+	if (error == ERANGE) {
+		ThrowBalauException(
+			  Balau::Exception::ConversionException
+			, toString("String to integer conversion of \"", value, "\" is out of bounds.")
+		);
+	}
+}
+
 template <typename DstT, typename SrcT> void checkLowerLimit(SrcT n) {
 	const SrcT lowerLimit = std::numeric_limits<DstT>::lowest();
 
@@ -124,8 +137,10 @@ inline long stringToLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
@@ -133,8 +148,10 @@ inline long stringToLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long n = std::strtol(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
@@ -142,8 +159,10 @@ inline long long stringToLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
@@ -151,8 +170,10 @@ inline long long stringToLongLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	long long n = std::strtoll(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
@@ -160,8 +181,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
@@ -169,8 +192,10 @@ inline unsigned long stringToUnsignedLong(std::string_view value, int base) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long n = std::strtoul(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
@@ -178,8 +203,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value) {
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, 10);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
@@ -187,8 +214,10 @@ inline unsigned long long stringToUnsignedLongLong(std::string_view value, int b
 	Impl::validateFromStringValue(value);
 	char * strEnd;
 	const auto s = std::string(value);
+	errno = 0;
 	unsigned long long n = std::strtoull(s.c_str(), &strEnd, base);
 	Impl::validateIntegerConversion(s, strEnd);
+	Impl::validateIntegerRange(s, errno);
 	return n;
 }
 
-- 
2.43.0


From 1fe33c93230d3ba03f93dc28106d354ac679e23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 50/73] fix: an environment configuration can be used for more
 than one injector

---
 src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
index d6dfb2d..47723cb 100644
--- a/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/EnvironmentConfiguration.hpp
@@ -444,6 +444,9 @@ class EnvironmentConfiguration : public InjectorConfiguration {
 				}
 			}
 
+			// The next run of the configure() method starts anew.
+			allBindingBuilderFactories.clear();
+
 			builders = Impl::EnvironmentConfigurationBuilder::build(
 				typeSpecificationsUris, bindingBuilderFactoriesVector, propertyStringsHierarchy
 			);
-- 
2.43.0


From aaae9f1130df192d3e3320eeafed9e91cdd63045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:28 +0000
Subject: [PATCH 51/73] fix: a value type specification of a composite property
 is ignored

---
 .../Application/Impl/EnvironmentConfigurationBuilder.hpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
index acab863..6d29607 100644
--- a/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
+++ b/src/main/cpp/Balau/Application/Impl/EnvironmentConfigurationBuilder.hpp
@@ -259,7 +259,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
@@ -347,7 +347,7 @@ class EnvironmentConfigurationBuilder {
 						//);
 					}
 
-					if (factoryNodeIter != bindingBuilderFactoryVector.end()) {
+					if (factoryNodeIter != bindingBuilderFactoryVector.end() && (*factoryNodeIter)->isComposite()) {
 						auto childLevel = std::unique_ptr<BindingMap>(new BindingMap);
 						auto & ptr = *factoryNodeIter;
 						const auto & compositeBindingBuilderFactory = *static_cast<const CompositePropertyBindingBuilderFactory *>(ptr.get());
-- 
2.43.0


From 954d8fc216ceaba83a6a4137deba6dfdca1c2a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 52/73] fix: const requests look for a const binding in the
 whole injector hierarchy before promoting a non-const one

---
 src/main/cpp/Balau/Application/Injector.hpp | 29 +++++----------------
 1 file changed, 6 insertions(+), 23 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 641ad23..4334f69 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1269,17 +1269,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
-		} else if (hasNonConstBinding<Impl::BindingMetaType::Reference, T>(name)) {
+		} else if (std::is_const<T>::value && !hasBinding(keyView)) {
+			// No const binding in the whole hierarchy: promote a non-const binding.
 			return getReferenceImpl<typename std::remove_const<T>::type>(name);
 		} else if (parent) {
 			return parent->getReferenceImpl<T>(name);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name);
-			} else {
-				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
-			}
+			ThrowBalauException(Exception::NoBindingException, keyView.toKey());
 		}
 	}
 
@@ -1361,17 +1357,13 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (hasNonConstBinding<Impl::BindingMetaType::Shared, BaseT>(name)) {
+		} else if (std::is_const<BaseT>::value && !hasBinding(keyView)) {
+			// No const binding in the whole hierarchy: promote a non-const binding.
 			return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
-			} else {
-				ThrowBalauException(Exception::NoBindingException, keyView.toKey());
-			}
+			ThrowBalauException(Exception::NoBindingException, keyView.toKey());
 		}
 	}
 
@@ -1488,15 +1480,6 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return bindings->hasBinding(keyView) || (parent && parent->hasBinding(keyView));
 	}
 
-	// Used to determine whether a const request can be satisfied by a non-const binding
-	// of this injector, which takes precedence over the bindings of the parent.
-	private: template <Impl::BindingMetaType MetaT, typename T> bool hasNonConstBinding(std::string_view name) const {
-		using NonConstT = typename std::remove_const<T>::type;
-
-		return std::is_const<T>::value
-			&& bindings->hasBinding(Impl::BindingKeyView(typeid(Impl::BindingKeyType<MetaT, NonConstT>), name));
-	}
-
 	public: Injector(const Injector &) = delete;
 	public: Injector & operator = (const Injector &) = delete;
 
-- 
2.43.0


From 9e7c0fd5e4f23a815a7f23480a6b8cce0aa6bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:07 +0000
Subject: [PATCH 53/73] fix: requests with default values can be used for
 unique pointers and const types

---
 src/main/cpp/Balau/Application/Injector.hpp | 80 ++++++++++-----------
 1 file changed, 39 insertions(+), 41 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 4334f69..c6136a1 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -456,7 +456,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", std::move(defaultValue));
 	}
 
@@ -489,7 +489,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get("", defaultValueSupplier);
 	}
 
@@ -506,7 +506,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	/// @return a unique pointer containing the new instance or the supplied default
 	///
 	public: template <typename BaseT, typename DeleterT = std::default_delete<BaseT>>
-	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUnique(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		return GetInstance<std::unique_ptr<BaseT, DeleterT>>(this).get(name, defaultValueSupplier);
 	}
 
@@ -773,8 +773,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -806,8 +806,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -839,8 +839,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -872,8 +872,8 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getUniqueImpl<BaseT, DeleterT>(name);
 		}
 
-		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> & defaultValue) const {
-			return injector->getUniqueImpl<BaseT, DeleterT>(name, defaultValue);
+		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
+			return injector->getUniqueImpl<BaseT, DeleterT>(name, std::move(defaultValue));
 		}
 
 		std::unique_ptr<BaseT, DeleterT> get(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
@@ -1028,7 +1028,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1061,7 +1061,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1094,7 +1094,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1127,7 +1127,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<BaseT>(name);
 		}
 
-		std::shared_ptr<BaseT> get(std::string_view name, std::shared_ptr<BaseT> & defaultValue) const {
+		std::shared_ptr<BaseT> get(std::string_view name, const std::shared_ptr<BaseT> & defaultValue) const {
 			return injector->getSharedImpl<BaseT>(name, defaultValue);
 		}
 
@@ -1160,7 +1160,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1193,7 +1193,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			return injector->getSharedImpl<const BaseT>(name);
 		}
 
-		std::shared_ptr<const BaseT> get(std::string_view name, std::shared_ptr<const BaseT> & defaultValue) const {
+		std::shared_ptr<const BaseT> get(std::string_view name, const std::shared_ptr<const BaseT> & defaultValue) const {
 			return injector->getSharedImpl<const BaseT>(name, defaultValue);
 		}
 
@@ -1269,8 +1269,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
-		} else if (std::is_const<T>::value && !hasBinding(keyView)) {
-			// No const binding in the whole hierarchy: promote a non-const binding.
+		} else if (hasPromotableBinding<Impl::BindingMetaType::Reference, T>(name)) {
 			return getReferenceImpl<typename std::remove_const<T>::type>(name);
 		} else if (parent) {
 			return parent->getReferenceImpl<T>(name);
@@ -1287,15 +1286,12 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 
 		if (binding != nullptr) {
 			return getReferenceInstance<T>(*binding);
+		} else if (hasPromotableBinding<Impl::BindingMetaType::Reference, T>(name)) {
+			return getReferenceImpl<typename std::remove_const<T>::type>(name);
 		} else if (parent) {
 			return parent->getReferenceImpl<T>(name, defaultValue);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Reference, T>::isConst) {
-				return getReferenceImpl<typename std::remove_const<T>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
-			}
+			return defaultValue;
 		}
 	}
 
@@ -1315,7 +1311,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT> && defaultValue) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::unique_ptr<BaseT, DeleterT> && defaultValue) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
@@ -1330,7 +1326,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 	}
 
 	private: template <typename BaseT, typename DeleterT>
-	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, std::function<std::unique_ptr<BaseT> ()> & defaultValueSupplier) const {
+	std::unique_ptr<BaseT, DeleterT> getUniqueImpl(std::string_view name, const std::function<std::unique_ptr<BaseT, DeleterT> ()> & defaultValueSupplier) const {
 		const Impl::BindingKeyView keyView(typeid(Impl::BindingKeyType<Impl::BindingMetaType::Unique, BaseT, DeleterT>), name);
 
 		const auto * binding = bindings->find(keyView);
@@ -1357,8 +1353,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
-		} else if (std::is_const<BaseT>::value && !hasBinding(keyView)) {
-			// No const binding in the whole hierarchy: promote a non-const binding.
+		} else if (hasPromotableBinding<Impl::BindingMetaType::Shared, BaseT>(name)) {
 			return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name);
@@ -1380,15 +1375,12 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
+		} else if (hasPromotableBinding<Impl::BindingMetaType::Shared, BaseT>(name)) {
+			return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name, defaultValue);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValue);
-			} else {
-				return defaultValue;
-			}
+			return defaultValue;
 		}
 	}
 
@@ -1405,15 +1397,12 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			// If we are here, then BaseT == Injector and the cast disappears.
 			auto ptr = std::const_pointer_cast<Injector>(shared_from_this());
 			return std::reinterpret_pointer_cast<BaseT>(ptr);
+		} else if (hasPromotableBinding<Impl::BindingMetaType::Shared, BaseT>(name)) {
+			return getSharedImpl<typename std::remove_const<BaseT>::type>(name);
 		} else if (parent) {
 			return parent->getSharedImpl<BaseT>(name, defaultValueSupplier);
 		} else {
-			// Try a non-const binding?
-			if (Impl::BindingKeyType<Impl::BindingMetaType::Shared, BaseT>::isConst) {
-				return getSharedImpl<typename std::remove_const<BaseT>::type>(name, defaultValueSupplier);
-			} else {
-				return defaultValueSupplier();
-			}
+			return defaultValueSupplier();
 		}
 	}
 
@@ -1480,6 +1469,15 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return bindings->hasBinding(keyView) || (parent && parent->hasBinding(keyView));
 	}
 
+	// A const request is satisfied by a non-const binding when there is no const binding in the whole hierarchy.
+	private: template <Impl::BindingMetaType MetaT, typename T> bool hasPromotableBinding(std::string_view name) const {
+		using NonConstT = typename std::remove_const<T>::type;
+
+		return std::is_const<T>::value
+			&& !hasBinding(Impl::BindingKeyView(typeid(Impl::BindingKeyType<MetaT, T>), name))
+			&& hasBinding(Impl::BindingKeyView(typeid(Impl::BindingKeyType<MetaT, NonConstT>), name));
+	}
+
 	public: Injector(const Injector &) = delete;
 	public: Injector & operator = (const Injector &) = delete;
 
-- 
2.43.0


From 1a28efdba6ef8ec2f87224517e464d59db8c6640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:57 +0000
Subject: [PATCH 54/73] fix: dependencies of a child injector's bindings can be
 satisfied by its parent

---
 .../cpp/Balau/Application/Impl/Binding.hpp    | 20 +++++++++++++++----
 src/main/cpp/Balau/Application/Injector.hpp   |  6 +++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index ff059d7..987627b 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -74,7 +74,8 @@ class AbstractBinding {
 	                                   const BindingKey & weakInjectorKey,
 	                                   const BindingKey & constWeakInjectorKey,
 	                                   const BindingKey & sharedInjectorKey,
-	                                   const BindingKey & constSharedInjectorKey) const {
+	                                   const BindingKey & constSharedInjectorKey,
+	                                   const std::function<bool (const BindingKey &)> & isInherited) const {
 		const std::vector<BindingKey> dependencyKeys = getDependencyKeys();
 
 		for (const auto & dependencyKey : dependencyKeys) {
@@ -86,14 +87,25 @@ class AbstractBinding {
 				|| dependencyKey == sharedInjectorKey
 				|| dependencyKey == constSharedInjectorKey) {
 				continue; // Special case of injector being injected.
-			} else if (bindingGraph.hasDependency(dependencyKey)) {
-				bindingGraph.addRelationship(dependencyKey, thisKey);
-			} else {
+			} else if (!registerDependency(bindingGraph, thisKey, dependencyKey, isInherited)) {
 				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
 			}
 		}
 	}
 
+	// Dependencies that are supplied by an ancestor of the injector do not form part of the dependency graph.
+	private: static bool registerDependency(BindingGraph & bindingGraph,
+	                                        const BindingKey & thisKey,
+	                                        const BindingKey & dependencyKey,
+	                                        const std::function<bool (const BindingKey &)> & isInherited) {
+		if (bindingGraph.hasDependency(dependencyKey)) {
+			bindingGraph.addRelationship(dependencyKey, thisKey);
+			return true;
+		}
+
+		return isInherited(dependencyKey);
+	}
+
 	//
 	// Called after the bindings are created but before the injector
 	// pointer becomes available for use. Most Supplier implementations
diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index c6136a1..4fad79d 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1672,8 +1672,12 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		const Impl::BindingKey constSharedKey(typeid(Impl::BindingKeyType<shared, const Injector>), "");
 
 		// Validate and create the edges of the dependency graph.
+		const auto isInherited = [this] (const Impl::BindingKey & key) {
+			return parent && parent->hasBinding(Impl::BindingKeyView(key));
+		};
+
 		for (const auto & binding : (*bindings)) {
-			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey);
+			binding.value->registerDependencies(graph, weakKey, constWeakKey, sharedKey, constSharedKey, isInherited);
 		}
 
 		std::vector<std::pair<Impl::BindingKey, Impl::BindingKey>> cycleEdges;
-- 
2.43.0


From 958a188879f947a033fa0a9d61d778807886ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:03 +0000
Subject: [PATCH 55/73] fix: injected weak and const dependencies are satisfied
 by the bindings they are promoted to

---
 .../cpp/Balau/Application/Impl/Binding.hpp    |  3 +-
 .../cpp/Balau/Application/Impl/BindingKey.hpp | 63 ++++++++++++++++---
 2 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Impl/Binding.hpp b/src/main/cpp/Balau/Application/Impl/Binding.hpp
index 987627b..bca352e 100644
--- a/src/main/cpp/Balau/Application/Impl/Binding.hpp
+++ b/src/main/cpp/Balau/Application/Impl/Binding.hpp
@@ -87,7 +87,8 @@ class AbstractBinding {
 				|| dependencyKey == sharedInjectorKey
 				|| dependencyKey == constSharedInjectorKey) {
 				continue; // Special case of injector being injected.
-			} else if (!registerDependency(bindingGraph, thisKey, dependencyKey, isInherited)) {
+			} else if (!registerDependency(bindingGraph, thisKey, dependencyKey, isInherited)
+				&& !registerDependency(bindingGraph, thisKey, dependencyKey.promoted(), isInherited)) {
 				ThrowBalauException(Exception::MissingDependencyException, thisKey, dependencyKey);
 			}
 		}
diff --git a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
index 75c5ea2..744fe10 100644
--- a/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
+++ b/src/main/cpp/Balau/Application/Impl/BindingKey.hpp
@@ -28,6 +28,12 @@
 #include <typeindex>
 #include <utility>
 
+namespace Balau {
+
+class Injector;
+
+} // namespace Balau
+
 namespace Balau::Impl {
 
 class BindingBuilderBase;
@@ -172,6 +178,7 @@ class BindingKey final {
 
 	public: BindingKey(std::type_index type_, const std::string & name_)
 		: type(type_)
+		  , promotedType(type_)
 		  , name(name_)
 		#ifdef BALAU_DEBUG
 		, typeStr(demangleBindingKeyTypeString(boost::core::demangle(type.name())))
@@ -180,6 +187,7 @@ class BindingKey final {
 
 	public: BindingKey(std::type_index type_, std::string && name_)
 		: type(type_)
+		  , promotedType(type_)
 		  , name(std::move(name_))
 		#ifdef BALAU_DEBUG
 		, typeStr(demangleBindingKeyTypeString(boost::core::demangle(type.name())))
@@ -188,6 +196,7 @@ class BindingKey final {
 
 	public: explicit BindingKey(std::string && name_)
 		: type(typeid(BindingKey)) // Not set.
+		  , promotedType(typeid(BindingKey)) // Not set.
 		  , name(std::move(name_))
 		#ifdef BALAU_DEBUG
 		, typeStr(demangleBindingKeyTypeString(boost::core::demangle(type.name())))
@@ -196,12 +205,19 @@ class BindingKey final {
 
 	public: BindingKey()
 		: type(typeid(BindingKey)) // Not set.
+		  , promotedType(typeid(BindingKey)) // Not set.
 		  , name()
 		#ifdef BALAU_DEBUG
 		, typeStr(demangleBindingKeyTypeString(boost::core::demangle(type.name())))
 		#endif
 	{}
 
+	// A key of a dependency that may also be satisfied by a binding of the promoted type.
+	public: BindingKey(std::type_index type_, std::type_index promotedType_, std::string && name_)
+		: BindingKey(type_, std::move(name_)) {
+		promotedType = promotedType_;
+	}
+
 	public: BindingKey(const BindingKey & rhs) = default;
 	public: BindingKey(BindingKey && rhs) = default;
 
@@ -216,6 +232,11 @@ class BindingKey final {
 		return name;
 	}
 
+	// The key to use when there is no binding for this key.
+	public: BindingKey promoted() const {
+		return BindingKey(promotedType, name);
+	}
+
 	public: size_t hashcode() const noexcept {
 		return std::hash<std::type_index>()(type) ^ (41 * std::hash<std::string>()(name));
 	}
@@ -224,12 +245,14 @@ class BindingKey final {
 
 	private: void setType(std::type_index type_) {
 		type = type_;
+		promotedType = type_;
 		#ifdef BALAU_DEBUG
 		typeStr = demangleBindingKeyTypeString(boost::core::demangle(type.name()));
 		#endif
 	}
 
 	private: std::type_index type;
+	private: std::type_index promotedType;
 	private: std::string name;
 
 	#ifdef BALAU_DEBUG
@@ -317,7 +340,11 @@ template <typename T> struct CreateBindingKey<T &> {
 // Create a const "Reference" binding key.
 template <typename T> struct CreateBindingKey<const T &> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::Reference, const T>)
+			, typeid(BindingKeyType<Impl::BindingMetaType::Reference, T>)
+			, std::move(name)
+		);
 	}
 };
 
@@ -338,42 +365,64 @@ template <typename T> struct CreateBindingKey<const std::shared_ptr<T>> {
 // Create a "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>)
+			, std::move(name)
+		);
 	}
 };
 
 // Create a const "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::shared_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<Impl::BindingMetaType::Shared, const T>)
+			, typeid(BindingKeyType<Impl::BindingMetaType::Shared, T>)
+			, std::move(name)
+		);
 	}
 };
 
+// Weak pointer dependencies are satisfied by shared bindings, with the exception of the injector itself.
+template <typename T> struct WeakMetaType {
+	static constexpr BindingMetaType value
+		= std::is_same<T, Injector>::value ? BindingMetaType::WeakPromotion : BindingMetaType::Shared;
+};
+
 // Create a "Shared" weak binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<WeakMetaType<T>::value, T>), std::move(name));
 	}
 };
 
 // Create a const weak "Shared" binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, T>), std::move(name));
+		return Impl::BindingKey(typeid(BindingKeyType<WeakMetaType<T>::value, T>), std::move(name));
 	}
 };
 
 // Create a weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<WeakMetaType<T>::value, const T>)
+			, typeid(BindingKeyType<WeakMetaType<T>::value, T>)
+			, std::move(name)
+		);
 	}
 };
 
 // Create a const weak "Shared" const binding key.
 template <typename T> struct CreateBindingKey<const std::weak_ptr<const T>> {
 	Impl::BindingKey operator () (std::string name) const {
-		return Impl::BindingKey(typeid(BindingKeyType<Impl::BindingMetaType::WeakPromotion, const T>), std::move(name));
+		return Impl::BindingKey(
+			typeid(BindingKeyType<WeakMetaType<T>::value, const T>)
+			, typeid(BindingKeyType<WeakMetaType<T>::value, T>)
+			, std::move(name)
+		);
 	}
 };
 
-- 
2.43.0


From d9dec271b5a3fa62439f565a52ef9b3e15b8e8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:31 +0000
Subject: [PATCH 56/73] fix: configurations added by added configurations are
 used

---
 src/main/cpp/Balau/Application/Injector.hpp | 28 +++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/Balau/Application/Injector.hpp b/src/main/cpp/Balau/Application/Injector.hpp
index 4fad79d..2925099 100644
--- a/src/main/cpp/Balau/Application/Injector.hpp
+++ b/src/main/cpp/Balau/Application/Injector.hpp
@@ -1570,11 +1570,7 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			, conf ...
 		);
 
-		for (const auto & c : extraConfiguration) {
-			Util::Containers::append(builders, c->execute());
-			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
-			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
-		}
+		appendExtraConfiguration(builders, std::move(extraConfiguration));
 
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
@@ -1601,14 +1597,14 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
 		}
 
+		std::vector<const InjectorConfiguration *> extraConfiguration;
+
 		for (const auto & c : conf) {
-			for (const auto * c2 : c->getExtraConfiguration()) {
-				Util::Vectors::append(builders, c2->execute());
-				Util::Containers::append(postConstructionCalls, c2->getPostConstructionCalls());
-				Util::Containers::append(preDestructionCalls, c2->getPreDestructionCalls());
-			}
+			Util::Vectors::append(extraConfiguration, c->getExtraConfiguration());
 		}
 
+		appendExtraConfiguration(builders, std::move(extraConfiguration));
+
 		auto theBindings = std::make_shared<Impl::BindingMap>();
 
 		for (auto & builder : builders) {
@@ -1625,6 +1621,18 @@ class Injector final : public std::enable_shared_from_this<Injector> {
 		return theBindings;
 	}
 
+	// Added configurations can in turn add other configurations.
+	private: void appendExtraConfiguration(std::vector<std::shared_ptr<Impl::BindingBuilderBase>> & builders,
+	                                       std::vector<const InjectorConfiguration *> extraConfiguration) {
+		for (size_t m = 0; m < extraConfiguration.size(); ++m) {
+			const auto * c = extraConfiguration[m];
+			Util::Containers::append(builders, c->execute());
+			Util::Containers::append(postConstructionCalls, c->getPostConstructionCalls());
+			Util::Containers::append(preDestructionCalls, c->getPreDestructionCalls());
+			Util::Vectors::append(extraConfiguration, c->getExtraConfiguration());
+		}
+	}
+
 	private: void registerPostConstructionCallImpl(const std::function<void (const Injector &)> & call) const {
 		std::lock_guard<std::recursive_mutex> lock(callSync);
 		postConstructionCalls.push_back(call);
-- 
2.43.0


From 80e649368d753b19f5836b644c5c8ae1c2175d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:43 +0000
Subject: [PATCH 57/73] fix: an application configuration can be used for more
 than one injector

---
 .../cpp/Balau/Application/ApplicationConfiguration.hpp    | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
index 0fa4225..e112cec 100644
--- a/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
+++ b/src/main/cpp/Balau/Application/ApplicationConfiguration.hpp
@@ -29,6 +29,8 @@
 #include <Balau/Application/BindingBuilder.hpp>
 #include <Balau/Application/InjectorConfiguration.hpp>
 
+#include <utility>
+
 namespace Balau {
 
 ///
@@ -117,15 +119,15 @@ class ApplicationConfiguration : public InjectorConfiguration {
 	}
 
 	public: std::vector<const InjectorConfiguration *> getExtraConfiguration() const override {
-		return extraConfiguration;
+		return std::exchange(extraConfiguration, {}); // Added again if the configuration is used again.
 	}
 
 	public: std::list<std::function<void (const Injector& )>> getPostConstructionCalls() const override {
-		return postConstructionCalls;
+		return std::exchange(postConstructionCalls, {}); // Added again if the configuration is used again.
 	}
 
 	public: std::list<std::function<void ()>> getPreDestructionCalls() const override {
-		return preDestructionCalls;
+		return std::exchange(preDestructionCalls, {}); // Added again if the configuration is used again.
 	}
 
 	public: std::list<std::unique_ptr<StaticSingletonRegistrationBase>> getStaticSingletonPostConstructionCalls() const override {
-- 
2.43.0


From 0b2db228f9b1637f7ee27e890e38f6e6d12edcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 58/73] fix: a thread local instance created at the address of
 a destroyed one starts without instances

---
 .../Balau/Concurrent/ThreadLocalInstance.hpp  | 44 ++++++++++++++++++-
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
index 44a6043..14ffe0d 100644
--- a/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
+++ b/src/main/cpp/Balau/Concurrent/ThreadLocalInstance.hpp
@@ -28,8 +28,48 @@
 
 #include <boost/thread/tss.hpp>
 
+#include <atomic>
+#include <functional>
+#include <memory>
+
 namespace Balau::Concurrent {
 
+namespace Impl {
+
+//
+// The thread specific pointers are identified by their address, which could previously have
+// been the address of another one, the values of which live on in the threads that used it.
+// The values are thus marked with a number that is unique to their owner.
+//
+template <typename T> class ThreadLocalStorage {
+	private: struct Entry {
+		const unsigned long owner;
+		const std::unique_ptr<T> value;
+	};
+
+	public: ThreadLocalStorage() : id(createId()) {}
+
+	public: T * get() const {
+		const Entry * const e = entry.get();
+		return e != nullptr && e->owner == id ? e->value.get() : nullptr;
+	}
+
+	public: void reset(T * value_) {
+		std::unique_ptr<T> value(value_);
+		entry.reset(new Entry { id, std::move(value) });
+	}
+
+	private: static unsigned long createId() {
+		static std::atomic_ulong nextId { 0 };
+		return nextId++;
+	}
+
+	private: const unsigned long id;
+	private: boost::thread_specific_ptr<Entry> entry;
+};
+
+} // namespace Impl
+
 ///
 /// A thread local instance that can be used as a class member instance variable.
 ///
@@ -61,7 +101,7 @@ class ThreadLocalInstance<T, typename std::enable_if<std::is_default_constructib
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: Impl::ThreadLocalStorage<T> instance;
 };
 
 template <typename T>
@@ -79,7 +119,7 @@ class ThreadLocalInstance<T, typename std::enable_if<!std::is_default_constructi
 
 	///////////////////////// Private implementation //////////////////////////
 
-	private: boost::thread_specific_ptr<T> instance;
+	private: Impl::ThreadLocalStorage<T> instance;
 };
 
 } // namespace Balau::Concurrent
-- 
2.43.0


From 0c14c43fbd337e64c4391b85b5b4d71d5f7524b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:46 +0000
Subject: [PATCH 59/73] fix: HTTP resources report a failed request instead of
 dereferencing a null response

---
 src/main/cpp/Balau/Resource/Http.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index 0e1197e..9734530 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -26,11 +26,13 @@
 #ifndef COM_BORA_SOFTWARE__BALAU_RESOURCE__HTTP
 #define COM_BORA_SOFTWARE__BALAU_RESOURCE__HTTP
 
+#include <Balau/Exception/NetworkExceptions.hpp>
 #include <Balau/Resource/ByteReadResource.hpp>
 #include <Balau/Resource/UriComponents.hpp>
 #include <Balau/Resource/Url.hpp>
 #include <Balau/Resource/Utf8To32ReadResource.hpp>
 #include <Balau/ThirdParty/CppHttpLib/HttpLib.hpp>
+#include <Balau/Util/Vectors.hpp>
 
 #include <boost/iostreams/code_converter.hpp>
 #include <boost/iostreams/concepts.hpp>
@@ -336,6 +338,11 @@ class HttpSource : public boost::iostreams::source {
 	private: std::vector<char> getBody() {
 		auto p = url.pathQueryFragment();
 		auto response = client->Get(std::string(p).c_str());
+
+		if (!response) {
+			ThrowBalauException(Exception::NetworkException, "Failed to get the HTTP resource: " + toString(*http));
+		}
+
 		return Util::Vectors::toCharVector(response->body);
 	}
 
@@ -405,6 +412,11 @@ class HttpsSource : public boost::iostreams::source {
 
 	private: std::vector<char> getBody() {
 		auto response = client->Get(std::string(url.pathQueryFragment()).c_str());
+
+		if (!response) {
+			ThrowBalauException(Exception::NetworkException, "Failed to get the HTTPS resource: " + toString(*https));
+		}
+
 		return Util::Vectors::toCharVector(response->body);
 	}
 
-- 
2.43.0


From df13e6a9e43145c147af88c9af67fe37297a224b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:46 +0000
Subject: [PATCH 60/73] fix: HTTP read resources that have been moved from can
 be destroyed

---
 src/main/cpp/Balau/Resource/Http.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index 9734530..f96c74a 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -459,7 +459,9 @@ class HttpByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -498,7 +500,9 @@ class HttpsByteReadResource : public ByteReadResource {
 	}
 
 	public: void close() override {
-		stream->close();
+		if (stream) {
+			stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -544,7 +548,9 @@ class HttpsUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		if (utf32Stream) {
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
@@ -592,7 +598,9 @@ class HttpUtf8To32ReadResource : public Utf8To32ReadResource {
 	}
 
 	public: void close() override {
-		utf32Stream->close();
+		if (utf32Stream) {
+			utf32Stream->close();
+		}
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0


From 50cc75d2fde23a030a4235b4e17188a538a73f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:34 +0000
Subject: [PATCH 61/73] fix: a connection reset by an HTTP server does not end
 the process with SIGPIPE

---
 src/main/cpp/Balau/Resource/Http.hpp | 42 ++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/src/main/cpp/Balau/Resource/Http.hpp b/src/main/cpp/Balau/Resource/Http.hpp
index f96c74a..43b0d80 100644
--- a/src/main/cpp/Balau/Resource/Http.hpp
+++ b/src/main/cpp/Balau/Resource/Http.hpp
@@ -39,6 +39,7 @@
 #include <boost/iostreams/stream.hpp>
 
 #include <codecvt>
+#include <csignal>
 
 namespace Balau::Resource {
 
@@ -281,6 +282,45 @@ inline Balau::U8String<AllocatorT> toString(const Https & https) {
 
 namespace Impl {
 
+///
+/// Prevents a connection that has been reset by the server from raising a SIGPIPE signal in the calling thread.
+///
+class BrokenPipeGuard {
+	public: BrokenPipeGuard() {
+		sigset_t pending;
+		sigpending(&pending);
+		alreadyPending = sigismember(&pending, SIGPIPE) == 1;
+
+		sigset_t sigPipe;
+		sigemptyset(&sigPipe);
+		sigaddset(&sigPipe, SIGPIPE);
+		pthread_sigmask(SIG_BLOCK, &sigPipe, &previousMask);
+	}
+
+	public: BrokenPipeGuard(const BrokenPipeGuard &) = delete;
+	public: BrokenPipeGuard & operator = (const BrokenPipeGuard &) = delete;
+
+	public: ~BrokenPipeGuard() {
+		if (!alreadyPending) {
+			sigset_t pending;
+			sigpending(&pending);
+
+			if (sigismember(&pending, SIGPIPE) == 1) {
+				sigset_t sigPipe;
+				sigemptyset(&sigPipe);
+				sigaddset(&sigPipe, SIGPIPE);
+				int signalNumber;
+				sigwait(&sigPipe, &signalNumber);
+			}
+		}
+
+		pthread_sigmask(SIG_SETMASK, &previousMask, nullptr);
+	}
+
+	private: bool alreadyPending;
+	private: sigset_t previousMask;
+};
+
 ///
 /// Boost IO streams HTTP source, used in the HTTP input stream.
 ///
@@ -337,6 +377,7 @@ class HttpSource : public boost::iostreams::source {
 
 	private: std::vector<char> getBody() {
 		auto p = url.pathQueryFragment();
+		BrokenPipeGuard guard;
 		auto response = client->Get(std::string(p).c_str());
 
 		if (!response) {
@@ -411,6 +452,7 @@ class HttpsSource : public boost::iostreams::source {
 	}
 
 	private: std::vector<char> getBody() {
+		BrokenPipeGuard guard;
 		auto response = client->Get(std::string(url.pathQueryFragment()).c_str());
 
 		if (!response) {
-- 
2.43.0


From 5b8be42b1d77ee411f6bc094d150f9e4f5b334aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:12 +0000
Subject: [PATCH 62/73] fix: an HTTP chunk that is longer than its stated
 length is an error

---
 src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp b/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp
index d4ee4bb..4d6f6c3 100644
--- a/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp
+++ b/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp
@@ -3511,7 +3511,7 @@ inline bool read_content_chunked(Stream & strm,
 		}
 
 		if (strcmp(line_reader.ptr(), "\r\n")) {
-			break;
+			return false;
 		}
 
 		if (!line_reader.getline()) {
-- 
2.43.0


From ac41d61e876b136d5d25617d507c2e429f695d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:09 +0000
Subject: [PATCH 63/73] fix: the end of a TLS connection without a closure
 alert is not the end of an HTTP body

---
 .../cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp b/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp
index 4d6f6c3..2d5a798 100644
--- a/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp
+++ b/src/main/cpp/Balau/ThirdParty/CppHttpLib/HttpLib.hpp
@@ -7578,10 +7578,16 @@ inline bool SSLSocketStream::is_writable() const {
 }
 
 inline ssize_t SSLSocketStream::read(char * ptr, size_t size) {
+	// The end of the connection without a closure alert is a premature close (RFC 2818, section 2.2).
+	auto ssl_read = [this](char * ptr, int size) {
+		auto ret = SSL_read(ssl_, ptr, size);
+		return ret == 0 && !(SSL_get_shutdown(ssl_) & SSL_RECEIVED_SHUTDOWN) ? -1 : ret;
+	};
+
 	if (SSL_pending(ssl_) > 0) {
-		return SSL_read(ssl_, ptr, static_cast<int>(size));
+		return ssl_read(ptr, static_cast<int>(size));
 	} else if (is_readable()) {
-		auto ret = SSL_read(ssl_, ptr, static_cast<int>(size));
+		auto ret = ssl_read(ptr, static_cast<int>(size));
 		if (ret < 0) {
 			auto err = SSL_get_error(ssl_, ret);
 #ifdef _WIN32
@@ -7591,9 +7597,9 @@ inline ssize_t SSLSocketStream::read(char * ptr, size_t size) {
 			while (err == SSL_ERROR_WANT_READ) {
 #endif
 				if (SSL_pending(ssl_) > 0) {
-					return SSL_read(ssl_, ptr, static_cast<int>(size));
+					return ssl_read(ptr, static_cast<int>(size));
 				} else if (is_readable()) {
-					ret = SSL_read(ssl_, ptr, static_cast<int>(size));
+					ret = ssl_read(ptr, static_cast<int>(size));
 					if (ret >= 0) {
 						return ret;
 					}
-- 
2.43.0


From e524405549f8944104c8b0e54db03f721999bc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:01 +0000
Subject: [PATCH 64/73] fix: test reports are well-formed whatever the result
 texts contain

---
 .../Reporters/SurefireTestReportGenerator.cpp | 40 +++++++++++++++++--
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp b/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
index 4023e9d..301c18b 100644
--- a/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
+++ b/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
@@ -60,6 +60,40 @@ static std::string toSeconds(unsigned long long ns) {
 	return d;
 }
 
+// Result texts can contain anything. Bytes that are not part of a UTF-8 encoded
+// XML character are replaced, as the report would not be well-formed with them.
+static std::string toXmlText(const std::string & text) {
+	std::string output;
+	output.reserve(text.size());
+
+	for (size_t i = 0; i < text.size();) {
+		const auto c = (unsigned char) text[i];
+		const size_t length = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
+		bool valid = length != 0 && i + length <= text.size() && (c >= 0x20 || c == '\t' || c == '\n' || c == '\r');
+
+		for (size_t m = 1; valid && m < length; ++m) {
+			valid = ((unsigned char) text[i + m] & 0xc0U) == 0x80;
+		}
+
+		if (valid && length > 1) {
+			// Overlong encodings, surrogates, non-characters, and code points past the last one.
+			const auto d = (unsigned char) text[i + 1];
+			valid = !(c == 0xe0 && d < 0xa0) && !(c == 0xed && d >= 0xa0) && !(c == 0xf0 && d < 0x90) && !(c == 0xf4 && d >= 0x90)
+				&& !(c == 0xef && d == 0xbf && (unsigned char) text[i + 2] >= 0xbe);
+		}
+
+		if (valid) {
+			output.append(text, i, length);
+			i += length;
+		} else {
+			output += '?';
+			++i;
+		}
+	}
+
+	return output;
+}
+
 void SurefireTestReportGenerator::generate(const Impl::TestGroupBase & group,
                                            const std::chrono::nanoseconds & groupDuration,
                                            const std::vector<const Impl::TestResult *> & groupTestResults) {
@@ -93,21 +127,21 @@ void SurefireTestReportGenerator::generate(const Impl::TestGroupBase & group,
 
 			case Impl::TestResult::Result::Failure: {
 				boost::property_tree::ptree & failure = testcase.add("failure", "");
-				failure.add("<xmlattr>.message", testResult->resultText);
+				failure.add("<xmlattr>.message", toXmlText(testResult->resultText));
 				failure.add("<xmlattr>.type", "AssertionException");
 				break;
 			}
 
 			case Impl::TestResult::Result::Error: {
 				boost::property_tree::ptree & error = testcase.add("error", "");
-				error.add("<xmlattr>.message", testResult->resultText);
+				error.add("<xmlattr>.message", toXmlText(testResult->resultText));
 				error.add("<xmlattr>.type", "");
 				break;
 			}
 
 			case Impl::TestResult::Result::Ignored: {
 				boost::property_tree::ptree & skipped = testcase.add("skipped", "");
-				skipped.add("<xmlattr>.message", testResult->resultText);
+				skipped.add("<xmlattr>.message", toXmlText(testResult->resultText));
 				break;
 			}
 		}
-- 
2.43.0


From 96697aa983e7837304007a614897badabb0f30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:01 +0000
Subject: [PATCH 65/73] fix: a test report that can not be written does not
 abort the test run

---
 .../Balau/Testing/Impl/TestRunnerExecutor.hpp | 25 ++++++++++++++++---
 src/main/cpp/Balau/Testing/TestRunner.hpp     |  2 +-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
index ee88f21..9a54785 100644
--- a/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
+++ b/src/main/cpp/Balau/Testing/Impl/TestRunnerExecutor.hpp
@@ -59,6 +59,7 @@ class TestRunnerExecutor {
 	private: std::chrono::nanoseconds totalCoreTime;
 	private: std::vector<TestResult> testResults;
 	private: size_t pendingTestResultIndex;
+	private: bool allReportsWritten;
 
 	public: virtual ~TestRunnerExecutor() = default;
 
@@ -82,6 +83,11 @@ class TestRunnerExecutor {
 		return testResults;
 	}
 
+	// For final reporting.
+	public: bool reportsWritten() const {
+		return allReportsWritten;
+	}
+
 	protected: TestRunnerExecutor(std::unique_ptr<TestResultQueue> resultQueue_,
 	                              CompositeWriter & writer_,
 	                              std::shared_ptr<Impl::TestReportGenerator> & reportGenerator_,
@@ -97,7 +103,8 @@ class TestRunnerExecutor {
 		, useNamespaces(useNamespaces_)
 		, totalCoreTime(0)
 		, testResults(tests.size())
-		, pendingTestResultIndex(0) {}
+		, pendingTestResultIndex(0)
+		, allReportsWritten(true) {}
 
 	// Run a single test.
 	protected: void runTest(const std::string & pidStr, FlattenedTestCase & testToRun) {
@@ -313,8 +320,8 @@ class TestRunnerExecutor {
 
 							// Call the report generator for this completed test group.
 							if (reportGenerator) {
-							reportGenerator->generate(*test.group, groupDuration, groupTestResults);
-						}
+								generateReport(*test.group, groupDuration, groupTestResults);
+							}
 
 							break;
 						}
@@ -328,6 +335,18 @@ class TestRunnerExecutor {
 		}
 	}
 
+	// A report that can not be written does not prevent the remaining tests from running.
+	private: void generateReport(const TestGroupBase & group,
+	                             const std::chrono::nanoseconds & groupDuration,
+	                             const std::vector<const TestResult *> & groupTestResults) {
+		try {
+			reportGenerator->generate(group, groupDuration, groupTestResults);
+		} catch (const std::exception & e) {
+			allReportsWritten = false;
+			writer << " Failed to write the test report of group " << group.getGroupName() << ": " << e.what() << "\n";
+		}
+	}
+
 	//
 	// Supported globs:
 	//  - * translates to .*
diff --git a/src/main/cpp/Balau/Testing/TestRunner.hpp b/src/main/cpp/Balau/Testing/TestRunner.hpp
index 0208ff0..2b78c5c 100644
--- a/src/main/cpp/Balau/Testing/TestRunner.hpp
+++ b/src/main/cpp/Balau/Testing/TestRunner.hpp
@@ -437,7 +437,7 @@ class TestRunner : public Impl::TestRunnerBase {
 			tcsetattr(STDIN_FILENO, TCSANOW, &oldattr);
 		}
 
-		return success ? 0 : 1;
+		return success && executor->reportsWritten() ? 0 : 1;
 	}
 
 	// Concatenates final values into a single string, forming the test list.
-- 
2.43.0


From ba751e10c8304bbd3bd2266bec8d0299ae309315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:01 +0000
Subject: [PATCH 66/73] fix: a test report that is not written completely is an
 error

---
 .../Reporters/SurefireTestReportGenerator.cpp      | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp b/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
index 301c18b..d591244 100644
--- a/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
+++ b/src/main/cpp/Balau/Testing/Reporters/SurefireTestReportGenerator.cpp
@@ -21,6 +21,9 @@
 #include "../Impl/TestGroupBase.hpp"
 #include "../Impl/TestResult.hpp"
 
+#include <Balau/Exception/IOExceptions.hpp>
+
+#include <fstream>
 #include <iostream>
 #include <numeric>
 
@@ -154,9 +157,14 @@ void SurefireTestReportGenerator::generate(const Impl::TestGroupBase & group,
 	std::string outputFile = "TEST-" + group.getGroupName() + ".xml";
 	auto path = outputFolder / outputFile;
 
-	boost::property_tree::write_xml(
-		path.toRawString(), report, std::locale(), boost::property_tree::xml_writer_settings<std::string>(' ', 4)
-	);
+	std::ofstream stream(path.toRawString());
+
+	boost::property_tree::write_xml(stream, report, boost::property_tree::xml_writer_settings<std::string>(' ', 4));
+	stream.close();
+
+	if (!stream) {
+		ThrowBalauException(Exception::IOException, "Failed to write the report file " + path.toRawString());
+	}
 }
 
 } // namespace Balau::Testing::Reporters
-- 
2.43.0


From f62a99150225eb69ae040479192c69d496a21b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:23 +0000
Subject: [PATCH 67/73] fix: e-mails larger than one transfer buffer repeated
 their beginning

The data source callback passed the beginning of the e-mail to Curl on each
call instead of the data that follows the data already transferred.
---
 .../Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
index 0188dce..d2943eb 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
@@ -63,7 +63,7 @@ size_t dataSourceCallback(void * ptr, size_t size, size_t count, void * obj) {
 	}
 
 	const size_t requiredBytes = bytes < availableBytes ? bytes : availableBytes;
-	memcpy(ptr, emailData->data.data(), requiredBytes);
+	memcpy(ptr, emailData->data.data() + emailData->bytesTransferred, requiredBytes);
 	emailData->bytesTransferred += requiredBytes;
 	return requiredBytes;
 }
-- 
2.43.0


From 608c73b4ca6f40926c7fe03e2fca003b2f31cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:33 +0000
Subject: [PATCH 68/73] fix: the date of e-mails had fractional seconds

RFC 5322 does not allow fractional seconds in the Date header field.
---
 .../Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
index d2943eb..0cd0c3b 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
@@ -139,7 +139,7 @@ void CurlEmailSender::sendEmail(const std::string & from,
                                 const std::string & body) {
 	// RFC5322: CRLF everywhere.
 	std::string payload =
-		"Date: " + Util::DateTime::toString("%a, %d %b %Y %T %z", System::SystemClock().now()) + "\r\n" // TODO clock
+		"Date: " + Util::DateTime::toString("%a, %d %b %Y %T %z", std::chrono::time_point_cast<std::chrono::seconds>(System::SystemClock().now())) + "\r\n" // TODO clock
 		"From: " + from + "\r\n"
 		"To: " + to + "\r\n"
 		+ Util::Strings::prefixSuffixJoin(cc, "Cc: ", "\r\n") +
-- 
2.43.0


From d5b60f6b83d390e0e358bbcff505271c0821d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:33 +0000
Subject: [PATCH 69/73] fix: e-mails could not be sent with certificate
 verification

The sender told Curl to use a certificate authority file that does not exist.
The default certificate authorities of Curl are now used.
---
 .../Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
index 0cd0c3b..5bd1155 100644
--- a/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
+++ b/src/main/cpp/Balau/Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp
@@ -201,18 +201,6 @@ void CurlEmailSender::sendEmail(const std::string & from,
 	if (!verifyCertificate) {
 		curl_easy_setopt(curl, CURLOPT_SSL_VERIFYPEER, 0L);
 		curl_easy_setopt(curl, CURLOPT_SSL_VERIFYHOST, 0L);
-	} else {
-		/* If your server doesn't have a valid certificate, then you can disable
-		 * part of the Transport Layer Security protection by setting the
-		 * CURLOPT_SSL_VERIFYPEER and CURLOPT_SSL_VERIFYHOST options to 0 (false).
-		 * That is, in general, a bad idea. It is still better than sending your
-		 * authentication details in plain text though.  Instead, you should get
-		 * the issuer certificate (or the host certificate if the certificate is
-		 * self-signed) and add it to the set of certificates that are known to
-		 * libcurl using CURLOPT_CAINFO and/or CURLOPT_CAPATH. See docs/SSLCERTS
-		 * for more information. */
-		// TODO
-		curl_easy_setopt(curl, CURLOPT_CAINFO, "/path/to/certificate.pem");
 	}
 
 	curl_easy_setopt(curl, CURLOPT_MAIL_FROM, from.c_str());
-- 
2.43.0


From 4147e4e0e63fbe71850dae538758133e110bcced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:39 +0000
Subject: [PATCH 70/73] fix: the home directory is found without the HOME
 environment variable

The lookup of the passwd entry was repeated forever when it succeeded and
was given up when the supplied buffer was too small.
---
 src/main/cpp/Balau/Util/User.hpp | 50 +++++++++++---------------------
 1 file changed, 17 insertions(+), 33 deletions(-)

diff --git a/src/main/cpp/Balau/Util/User.hpp b/src/main/cpp/Balau/Util/User.hpp
index cf699c1..592391a 100644
--- a/src/main/cpp/Balau/Util/User.hpp
+++ b/src/main/cpp/Balau/Util/User.hpp
@@ -91,47 +91,31 @@ struct User final {
 			}
 
 			passwd pwd {};
-			passwd * result;
+			passwd * result = nullptr;
 			int s;
 			size_t bufferSize = 512;
 			std::vector<char> buffer(bufferSize);
-			bool repeat = false;
-
-			do {
-				s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result);
-
-				if (result == nullptr) {
-					if (s == 0) {
-						ThrowBalauException(
-							  Exception::UserNotFoundException
-							, "Failed to locate the user home directory: user entry not found in passwd."
-						);
-					} else if (errno == ERANGE) {
-						// Give up at 1MB buffer size.
-						if (bufferSize >= 1048576) {
-							ThrowBalauException(
-								  Exception::UserNotFoundException
-								, "Failed to locate the user home directory with buffer size of 1MB."
-							);
-						}
-
-						bufferSize *= 2;
-						buffer.resize(bufferSize, 0);
-						repeat = true;
-					} else {
-						ThrowBalauException(
-							  Exception::UserNotFoundException
-							, "Failed to locate the user home directory: getpwnam_r raised an error, errno = " +
-							  ::toString(errno)
-						);
-					}
+
+			// Give up at 1MB buffer size.
+			while ((s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result)) == EINTR
+				|| (s == ERANGE && bufferSize < 1048576)) {
+				if (s == ERANGE) {
+					bufferSize *= 2;
+					buffer.resize(bufferSize, 0);
 				}
-			} while (!repeat);
+			}
+
+			if (s != 0) {
+				ThrowBalauException(
+					  Exception::UserNotFoundException
+					, ::toString("Failed to locate the user home directory: getpwuid_r raised an error, error = ", s)
+				);
+			}
 
 			if (result == nullptr || result->pw_dir == nullptr) {
 				ThrowBalauException(
 					  Exception::UserNotFoundException
-					, ::toString("Failed to locate the user home directory: getpwnam_r raised an error, errno = ", errno)
+					, "Failed to locate the user home directory: user entry not found in passwd."
 				);
 			}
 
-- 
2.43.0


From c72b8c0ed579e28e381d427b5109ddddc9b783a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:33 +0000
Subject: [PATCH 71/73] fix: the user name is looked up in a thread safe way

The static buffer of getpwuid is overwritten by calls in other threads.
---
 src/main/cpp/Balau/Util/User.hpp | 90 +++++++++++++++++++-------------
 1 file changed, 53 insertions(+), 37 deletions(-)

diff --git a/src/main/cpp/Balau/Util/User.hpp b/src/main/cpp/Balau/Util/User.hpp
index 592391a..d738e9e 100644
--- a/src/main/cpp/Balau/Util/User.hpp
+++ b/src/main/cpp/Balau/Util/User.hpp
@@ -29,7 +29,11 @@
 #include <Balau/Exception/ResourceExceptions.hpp>
 #include <Balau/Resource/File.hpp>
 
+#include <cerrno>
+#include <optional>
+
 #include <pwd.h>
+#include <unistd.h>
 
 namespace Balau::Exception {
 
@@ -58,17 +62,16 @@ struct User final {
 	///
 	static std::string getUserName() {
 		#if BOOST_OS_UNIX
-			const uid_t uid = geteuid();
-			const passwd * pw = getpwuid(uid);
-
-			if (pw) {
-				return std::string(pw->pw_name);
-			} else {
-				ThrowBalauException(
-					  Exception::UserNotFoundException
-					, "Failed to obtain the user name: user entry not found in passwd."
-				);
+			const auto name = getPasswdField(geteuid(), &passwd::pw_name);
+
+			if (name) {
+				return *name;
 			}
+
+			ThrowBalauException(
+				  Exception::UserNotFoundException
+				, "Failed to obtain the user name: user entry not found in passwd."
+			);
 		#elif BOOST_OS_WINDOWS
 			#error "The Windows platform is not yet implemented."
 		#else
@@ -90,36 +93,16 @@ struct User final {
 				return Resource::File(Util::Strings::trim(home));
 			}
 
-			passwd pwd {};
-			passwd * result = nullptr;
-			int s;
-			size_t bufferSize = 512;
-			std::vector<char> buffer(bufferSize);
-
-			// Give up at 1MB buffer size.
-			while ((s = getpwuid_r(getuid(), &pwd, buffer.data(), bufferSize, &result)) == EINTR
-				|| (s == ERANGE && bufferSize < 1048576)) {
-				if (s == ERANGE) {
-					bufferSize *= 2;
-					buffer.resize(bufferSize, 0);
-				}
-			}
-
-			if (s != 0) {
-				ThrowBalauException(
-					  Exception::UserNotFoundException
-					, ::toString("Failed to locate the user home directory: getpwuid_r raised an error, error = ", s)
-				);
-			}
+			const auto directory = getPasswdField(getuid(), &passwd::pw_dir);
 
-			if (result == nullptr || result->pw_dir == nullptr) {
-				ThrowBalauException(
-					  Exception::UserNotFoundException
-					, "Failed to locate the user home directory: user entry not found in passwd."
-				);
+			if (directory) {
+				return Resource::File(*directory);
 			}
 
-			return Resource::File(result->pw_dir);
+			ThrowBalauException(
+				  Exception::UserNotFoundException
+				, "Failed to locate the user home directory: user entry not found in passwd."
+			);
 		#elif BOOST_OS_WINDOWS
 			#error "The Windows platform is not yet implemented."
 
@@ -142,6 +125,39 @@ struct User final {
 		#endif
 	}
 
+	#if BOOST_OS_UNIX
+
+	// Look up a field of the user's passwd entry (thread safe).
+	private: static std::optional<std::string> getPasswdField(uid_t uid, char * passwd::* field) {
+		passwd pwd {};
+		passwd * result = nullptr;
+		int s;
+		size_t bufferSize = 512;
+		std::vector<char> buffer(bufferSize);
+
+		// Give up at 1MB buffer size.
+		while ((s = getpwuid_r(uid, &pwd, buffer.data(), bufferSize, &result)) == EINTR
+			|| (s == ERANGE && bufferSize < 1048576)) {
+			if (s == ERANGE) {
+				bufferSize *= 2;
+				buffer.resize(bufferSize, 0);
+			}
+		}
+
+		if (s != 0) {
+			ThrowBalauException(
+				  Exception::UserNotFoundException
+				, ::toString("Failed to look up the user: getpwuid_r raised an error, error = ", s)
+			);
+		}
+
+		return result == nullptr || result->*field == nullptr
+			? std::optional<std::string>()
+			: std::optional<std::string>(result->*field);
+	}
+
+	#endif
+
 	///////////////////////////////////////////////////////////////////////////
 
 	User() = delete;
-- 
2.43.0


From 65846ed584104138a56e6c64a306d91d1ee4e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:34 +0000
Subject: [PATCH 72/73] fix: blanks around XDG_DATA_HOME are ignored as they
 are in the other variables

---
 src/main/cpp/Balau/Util/Impl/AppImpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
index ccb93f7..5640ad1 100644
--- a/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/AppImpl.hpp
@@ -47,7 +47,7 @@ struct AppImpl final {
 			const char * xdg = std::getenv("XDG_DATA_HOME");
 
 			if (xdg != nullptr && !Util::Strings::trim(xdg).empty()) {
-				return Resource::File(xdg) / appGroup / appName;
+				return Resource::File(Util::Strings::trim(xdg)) / appGroup / appName;
 			}
 
 			auto home = User::getHomeDirectory();
-- 
2.43.0


From bf3d9ff544c36b2cd4f5a0b6aa3069f439d58e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:23 +0000
Subject: [PATCH 73/73] fix: real random numbers stay within their bounds

---
 src/main/cpp/Balau/Util/Impl/RandomImpl.hpp | 9 +++++++++
 src/main/cpp/Balau/Util/Random.hpp          | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
index 808af24..dbbb73a 100644
--- a/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
+++ b/src/main/cpp/Balau/Util/Impl/RandomImpl.hpp
@@ -38,6 +38,15 @@ template <typename IntegerT> inline IntegerT inclusivise(IntegerT upper) {
 	return upper;
 }
 
+// The rounding of the standard real distribution can give its excluded upper bound.
+template <typename RealT> inline RealT withinBounds(const std::uniform_real_distribution<RealT> & distribution, RealT value) {
+	return value < distribution.b() ? value : std::nextafter(distribution.b(), distribution.a());
+}
+
+template <typename DistributionT, typename T> inline T withinBounds(const DistributionT & , T value) {
+	return value;
+}
+
 } // namespace Balau::Util::Impl
 
 #endif // COM_BORA_SOFTWARE__BALAU_UTIL_IMPL__RANDOM_IMPL
diff --git a/src/main/cpp/Balau/Util/Random.hpp b/src/main/cpp/Balau/Util/Random.hpp
index b9c5142..d7d4ee5 100644
--- a/src/main/cpp/Balau/Util/Random.hpp
+++ b/src/main/cpp/Balau/Util/Random.hpp
@@ -55,7 +55,7 @@ template <typename T, typename D> class RandomNumberGenerator final {
 	/// Get the next random number.
 	///
 	public: T operator () () {
-		return distribution(generator);
+		return Impl::withinBounds(distribution, distribution(generator));
 	}
 
 	////////////////////////// Private implementation /////////////////////////
-- 
2.43.0

