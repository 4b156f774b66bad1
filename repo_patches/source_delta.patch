From 1d19b72aa5575c59d08cefde15fa8e849f7af94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 01/34] fix: queue group votes in prepare first when the
 messages are persistent

The prepare reply was sent directly, while the messages of the transaction were
still in the uncommitted sqlite transaction. A crash between the vote and the
next persist lost messages of a transaction that the transaction manager then
committed.
---
 middleware/queue/source/group/handle.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/middleware/queue/source/group/handle.cpp b/middleware/queue/source/group/handle.cpp
index 04ec089..4c60605 100644
--- a/middleware/queue/source/group/handle.cpp
+++ b/middleware/queue/source/group/handle.cpp
@@ -485,7 +485,9 @@ namespace casual
                            reply.trid = message.trid;
                            reply.state = common::code::xa::ok;
 
-                           state.multiplex.send( message.process.ipc, reply);
+                           // the vote is a promise: the messages of the transaction has to survive, hence 
+                           // we send reply when we're in persistent state
+                           local::detail::persistent::reply( state, message.process, std::move( reply));
                         };
                      }
                   } // prepare
-- 
2.43.0


From 8bdceb4eed19f4b3739f187f704ac11e7d03f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:19 +0000
Subject: [PATCH 02/34] fix: transaction manager announces the transaction it
 removes, not the one that took its place

detail::remove::transaction is called with the id of the transaction that is about to be erased (a view into
the element). The view was used after the erase, and the Disassociate event named another active
transaction (or garbage).
---
 middleware/transaction/source/manager/handle.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 84afb22..fab518a 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -268,12 +268,15 @@ namespace casual
                      if( auto found = common::algorithm::find( state.transactions, global))
                      {
                         common::log::line( verbose::log, "remove: ", *found);
-                        common::algorithm::container::erase( state.transactions, std::begin( found));
 
                         // other "managers" might have state associated with the transaction, send an event
                         // to help them get rid of it.
+                        // `global` might refer to the transaction we're about to erase, we need to take the copy first.
                         common::message::event::transaction::Disassociate event{ common::process::handle()};
                         event.gtrid = global;
+
+                        common::algorithm::container::erase( state.transactions, std::begin( found));
+
                         common::event::send( state.multiplex, event);
                      }
                   }
-- 
2.43.0


From b995c90b45bf6bb27b24801077340f5d01535942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 03/34] fix: the death of the owner does not roll back a
 transaction that is being committed

When the owner of a transaction died after it had asked for the commit, the transaction manager ordered
the resources to roll back, and when the prepare replies arrived it ordered the same resources to commit.
---
 middleware/transaction/source/manager/handle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index fab518a..2927264 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -1156,6 +1156,10 @@ namespace casual
 
                      auto trids = common::algorithm::accumulate( state.transactions, std::vector< common::transaction::ID>{}, [ pid = message.state.pid]( auto result, auto& transaction)
                      {
+                        // if the commit/rollback has started the outcome is (being) decided, and we can't order something else.
+                        if( transaction.stage != state::transaction::Stage::involved)
+                           return result;
+
                         if( ! transaction.branches.empty() && transaction.branches.back().trid.owner().pid == pid)
                            result.push_back( transaction.branches.back().trid);
 
-- 
2.43.0


From 743c152c71dffa30179292e48d2f4bc28b2ed24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 04/34] fix: transaction manager answers for resource proxies
 it can't reach

The reply that is emulated when a resource request can't be sent was not correlated with what
was awaited, and for local resources it raised since there is no instance for it. The same goes for
replies from instances that has exited.
---
 .../transaction/source/manager/handle.cpp     | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 2927264..67952d5 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -304,11 +304,18 @@ namespace casual
                         common::log::line( verbose::log, "request: ", request);
 
                         casual::assertion( request.resource, "invalid resource id: ", request.resource);
+
+                        // a possible emulated reply needs to correlate with what we return (and what is going to be awaited)
+                        if( ! request.correlation)
+                           request.correlation = common::strong::correlation::id::generate();
                         
                         if( state::resource::id::local( request.resource))
                         {
                            if( auto reserved = state.try_reserve( request.resource))
-                              return state.multiplex.send( reserved->process.ipc, request, create::resource::error::callback( request));
+                           {
+                              state.multiplex.send( reserved->process.ipc, request, create::resource::error::callback( request));
+                              return request.correlation;
+                           }
 
                            common::log::line( log, "could not send to resource: ", request.resource, " - action: try later");
                            // (we know message is an rvalue, so it's going to be a move)
@@ -316,7 +323,10 @@ namespace casual
                         }
 
                         if( auto resource = state.find_external( request.resource))
-                           return state.multiplex.send( resource->process.ipc, request, create::resource::error::callback( request));
+                        {
+                           state.multiplex.send( resource->process.ipc, request, create::resource::error::callback( request));
+                           return request.correlation;
+                        }
                         else
                         {
                            common::log::error( common::code::xa::resource_fail, "failed to find resource: ", request.resource, " for trid: ", request.trid, " - action: emulate reply with ", common::code::xa::resource_fail);
@@ -719,11 +729,15 @@ namespace casual
                      {
                         if( state::resource::id::local( message.resource))
                         {
-                           // The resource is a local resource proxy, and it's done, and ready for more work
-                           auto& instance = state.get_instance( message.resource, message.process.pid);
+                           // The resource is a local resource proxy, and it's done, and ready for more work.
+                           // There is no instance if it has exited, or if the reply is emulated on behalf of an unreachable instance
+                           if( auto resource = state.find_resource( message.resource))
                            {
-                              instance.unreserve( message.statistics);
-                              instance::ready( state, instance);
+                              if( auto instance = common::algorithm::find( resource->instances, message.process.pid))
+                              {
+                                 instance->unreserve( message.statistics);
+                                 instance::ready( state, *instance);
+                              }
                            }
                         } 
                      }
-- 
2.43.0


From 1716950812e92868be683ff44d77ac946f3c48bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 05/34] fix: transaction manager does not give pending requests
 to a proxy that is about to shut down

The reserve raised, and the reply from the instance was lost.
---
 middleware/transaction/source/manager/handle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 67952d5..1f2b10a 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -714,6 +714,10 @@ namespace casual
                      {
                         Trace trace{ "transaction::manager::handle::local::resource::detail::instance::done"};
 
+                        // an instance that is about to shut down takes no more work
+                        if( instance.state() != state::resource::proxy::instance::State::idle)
+                           return;
+
                         if( auto request = state.pending.requests.next( instance.id))
                         {
                            // We got a pending request for this resource, let's oblige
-- 
2.43.0


From fa138e1f3b8259a67bb33a3abfe81a5a1b8aa7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:59 +0000
Subject: [PATCH 06/34] fix: transaction manager answers pending resource
 requests that can't be sent

---
 .../transaction/source/manager/handle.cpp     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/middleware/transaction/source/manager/handle.cpp b/middleware/transaction/source/manager/handle.cpp
index 1f2b10a..a94ca13 100644
--- a/middleware/transaction/source/manager/handle.cpp
+++ b/middleware/transaction/source/manager/handle.cpp
@@ -255,6 +255,23 @@ namespace casual
                         push::resource::error::reply( request);
                      };
                   }
+
+                  //! for requests that have been pending, and are 'type erased'
+                  inline auto callback()
+                  {
+                     return []( const common::strong::ipc::id& ipc, const common::communication::ipc::message::Complete& complete)
+                     {
+                        namespace resource = common::message::transaction::resource;
+
+                        switch( complete.type())
+                        {
+                           case resource::prepare::Request::type(): return callback( resource::prepare::Request{})( ipc, complete);
+                           case resource::commit::Request::type(): return callback( resource::commit::Request{})( ipc, complete);
+                           case resource::rollback::Request::type(): return callback( resource::rollback::Request{})( ipc, complete);
+                           default: common::log::error( common::code::casual::internal_unexpected_value, "unexpected pending resource request: ", complete);
+                        }
+                     };
+                  }
                } // create::resource::error
 
                namespace remove
@@ -721,7 +738,7 @@ namespace casual
                         if( auto request = state.pending.requests.next( instance.id))
                         {
                            // We got a pending request for this resource, let's oblige
-                           if( state.multiplex.send( instance.process.ipc, std::move( request.complete)))
+                           if( state.multiplex.send( instance.process.ipc, std::move( request.complete), local::detail::create::resource::error::callback()))
                               instance.reserve( request.created);
                            else
                               common::log::line( common::log::category::error, "the instance: ", instance , " - does not seem to be running");
-- 
2.43.0


From bb201c62c4d6c5302fa8344fc5e871083e7fcaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 07/34] fix: service manager does not read past the last
 deadline

---
 middleware/service/source/manager/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 51675a1..00b5c2e 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -212,7 +212,7 @@ namespace casual
                {
                   if( auto found = algorithm::find( m_entries, correlation))
                   {
-                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries))
+                     if( auto next = m_entries.erase( std::begin( found)); next == std::begin( m_entries) && next != std::end( m_entries))
                         return { next->when};
                   }
                   return {};
-- 
2.43.0


From 6256793c0f0399373296c94ab5019ec95be9f097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 08/34] fix: service manager sets the timer for the deadline of
 a pending lookup

---
 middleware/service/source/manager/handle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index e743331..70fd59a 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -522,7 +522,8 @@ namespace casual
 
                               if( auto deadline = detail::calculate_deadline( state.services[ service_id], now, message.deadline))
                                  if( state.services[ service_id].has_sequential())
-                                    state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation});
+                                    if( auto next = state.pending.deadline.add( { .when = *deadline, .correlation = message.correlation}))
+                                       signal::timer::set( next.value() - now);
 
                               state.pending.lookups.emplace_back( std::move( message), now);
 
-- 
2.43.0


From f27c45e8a7b2d92a85105f84f5903aee10f08701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 09/34] fix: service manager only rolls back the transaction of
 the call that timed out

---
 middleware/service/source/manager/handle.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index 70fd59a..cdddecc 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -985,13 +985,15 @@ namespace casual
                {
                   log::line( verbose::log, "state.timeout_instances: ", state.timeout_instances);
 
-                  if( ! ack.metric.trid)
-                     return;
-                  
                   if( auto found = algorithm::find( state.timeout_instances, ack.metric.process.pid))
                   {
+                     // this is the ack for the call that timed out, with or without transaction. We can't keep the instance, 
+                     // since that would rollback the transaction of some future call.
                      state.timeout_instances.erase( std::begin( found));
 
+                     if( ! ack.metric.trid)
+                        return;
+
                      // Rollback the transaction (again). If TM got instances involved a rollback will be executed, 
                      // otherwise it will be a "no-op".
                      // TODO: we might want to have a dedicated message for this. SM should not order a rollback?
-- 
2.43.0


From f41f14ce4c82250e1f2786b257b6baf3d4f7be40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 10/34] fix: service manager replies to prepare shutdown when
 an instance that has timed out is done

---
 middleware/service/include/service/manager/state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 26e3818..4d7038c 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -148,10 +148,11 @@ namespace casual
                void remove( service::id::type service);
 
                //! @returns and consumes associated caller to the correlation. 'empty' caller if not found.
+               //! @note the correlation of the reservation is kept, the instance is reserved until it's unreserved/discarded
                inline instance::Caller consume( const common::strong::correlation::id& correlation)
                {
                   if( m_caller == correlation)
-                     return std::exchange( m_caller, {});
+                     return { std::exchange( m_caller.process, {}), m_caller.correlation};
                   return {};
                }
 
-- 
2.43.0


From beed5626aed20add2fac8bc9f32bf816bac8eddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:59 +0000
Subject: [PATCH 11/34] fix: service manager does not reserve disabled
 instances

---
 middleware/service/source/manager/state.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 00b5c2e..95c349c 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -594,7 +594,8 @@ namespace casual
 
          auto is_idle = [ &]( auto instance_id)
          {
-            return instances.sequential[ instance_id].idle();
+            // we can't use instances that is about to exit
+            return instances.sequential[ instance_id].idle() && ! algorithm::contains( disabled, instance_id);
          };
 
          auto& service = services[ service_id];
-- 
2.43.0


From aacef966306c47ed84fa616e0d8a1b433bd37a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 12/34] fix: service manager takes care of instances with
 discarded reservations

---
 middleware/service/source/manager/handle.cpp | 114 ++++++++++++-------
 1 file changed, 73 insertions(+), 41 deletions(-)

diff --git a/middleware/service/source/manager/handle.cpp b/middleware/service/source/manager/handle.cpp
index cdddecc..00ba582 100644
--- a/middleware/service/source/manager/handle.cpp
+++ b/middleware/service/source/manager/handle.cpp
@@ -231,6 +231,12 @@ namespace casual
             {
                // defined after lookup, below
                void pending( State& state, std::vector< state::service::pending::Lookup>&& pending);
+
+               //! takes care of an instance that is not reserved any more
+               void released( State& state, state::instance::sequential::id::type instance_id, const common::message::service::call::ACK& message);
+
+               //! discards the reservation of the instance, there will be no ack.
+               void discard( State& state, state::instance::sequential::id::type instance_id);
                   
             } // service::detail::handle
 
@@ -484,10 +490,11 @@ namespace casual
                         }
 
                         // send reply, if caller gone, we discard the reservation.
-                        state.multiplex.send( message.process.ipc, reply, [ &state]( auto& destination, auto& complete)
+                        state.multiplex.send( message.process.ipc, reply, [ &state, instance_id, correlation = message.correlation]( auto& destination, auto& complete)
                         {
-                           if( auto instance_id = state.instances.sequential.lookup( destination))
-                              state.instances.sequential[ instance_id].discard();
+                           if constexpr( ! is_concurrent)
+                              if( state.instances.sequential.contains( instance_id) && state.instances.sequential[ instance_id].caller().correlation == correlation)
+                                 detail::handle::discard( state, instance_id);
                         });
                      }
 
@@ -682,14 +689,17 @@ namespace casual
 
                            // we need to go through all sequential instances.
 
-                           state.instances.sequential.for_each( [ correlation = message.correlation ]( auto id, auto& ipc, auto& instance)
+                           auto is_reserved = [ &state, &message]( auto id)
                            {
-                              if( ! instance.idle() && instance.caller().correlation == correlation)
-                              {
-                                 log::line( verbose::log, "found reserved instance: ", instance);
-                                 instance.discard();
-                              }
-                           });
+                              auto& instance = state.instances.sequential[ id];
+                              return ! instance.idle() && instance.caller().correlation == message.correlation;
+                           };
+
+                           for( auto id : algorithm::transform_if( state.instances.sequential.indexes(), std::identity{}, is_reserved))
+                           {
+                              log::line( verbose::log, "found reserved instance: ", state.instances.sequential[ id]);
+                              detail::handle::discard( state, id);
+                           }
 
                            // regardless, we assume we've already replied.
                            reply.state = decltype( reply.state)::replied;
@@ -726,6 +736,58 @@ namespace casual
                         
                         algorithm::for_each( pending, lookup);
                      }
+
+                     void released( State& state, state::instance::sequential::id::type instance_id, const common::message::service::call::ACK& message)
+                     {
+                        Trace trace{ "service::manager::handle::local::service::detail::handle::released"};
+
+                        if( algorithm::contains( state.disabled, instance_id))
+                        {
+                           // we let the shutdown task take care of it.
+                           state.pending.shutdown( message);
+                           return;
+                        }
+
+                        // Check if there are pending request for services that this
+                        // instance has.
+
+                        auto has_pending = [ &state, instance_id]( const auto& pending)
+                        {
+                           return state.instances.sequential[ instance_id].service( state.services.lookup( pending.request.requested));
+                        };
+
+                        if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
+                        {
+                           log::line( verbose::log, "found pending: ", *found);
+
+                           auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
+
+                           // We now know that there are one idle server that has advertised the
+                           // requested service (we've just marked it as idle...).
+                           // We can use the normal request to get the response
+                           service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
+                        }
+                     }
+
+                     void discard( State& state, state::instance::sequential::id::type instance_id)
+                     {
+                        Trace trace{ "service::manager::handle::local::service::detail::handle::discard"};
+
+                        auto& instance = state.instances.sequential[ instance_id];
+                        log::line( verbose::log, "instance: ", instance);
+
+                        // there will be no ack from the instance, we emulate it.
+                        common::message::service::call::ACK message;
+                        message.correlation = instance.caller().correlation;
+                        message.metric.process = instance.process;
+
+                        if( auto deadline = state.pending.deadline.remove( message.correlation))
+                           signal::timer::set( deadline.value());
+
+                        instance.discard();
+
+                        handle::released( state, instance_id, message);
+                     }
                   } // handle
 
                   
@@ -1041,37 +1103,7 @@ namespace casual
 
                   state.unreserve( instance_id, message.metric);
 
-                  if( auto found = algorithm::find( state.disabled, instance_id))
-                  {
-                     // we let the shutdown task take care of it.
-                     state.pending.shutdown( message);
-                     return;
-                  }
-
-                  auto& instance = state.instances.sequential[ instance_id];
-
-                  log::line( verbose::log, "instance: ", instance);
-
-                  // Check if there are pending request for services that this
-                  // instance has.
-
-                  auto has_pending = [ &state, instance]( const auto& pending)
-                  {
-                     return instance.service( state.services.lookup( pending.request.requested));
-                  };
-
-                  if( auto found = common::algorithm::find_if( state.pending.lookups, has_pending))
-                  {
-                     log::line( verbose::log, "found pending: ", *found);
-
-                     auto pending = algorithm::container::extract( state.pending.lookups, std::begin( found));
-
-                     // We now know that there are one idle server that has advertised the
-                     // requested service (we've just marked it as idle...).
-                     // We can use the normal request to get the response
-                     service::detail::lookup( state, pending.request, platform::time::clock::type::now() - pending.when);
-                  }
- 
+                  service::detail::handle::released( state, instance_id, message);
                };
             }
 
-- 
2.43.0


From 76b4a2f93ccd02d482c3a46012bdec07247cb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:32 +0000
Subject: [PATCH 13/34] fix: gateway outbound: a call on a connection that
 turns out to be lost is answered

The task was added after the send. When the send lost the connection (which
fails the tasks of the connection) the task did not exist, and was added for
a connection that is gone: the caller never got a reply. For service calls
the connection was also used after it was destroyed.
---
 middleware/gateway/source/group/outbound/handle.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index a85b28a..d3508f8 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -264,10 +264,12 @@ namespace casual
 
                            if( message::protocol::compatible< common::message::service::call::callee::Request>( connection->protocol()))
                            {
-                              tcp::send( state, connection->descriptor(), message);
-
+                              // before the send - if we lose the connection during send the task needs to be there to be failed,
+                              // and the connection is gone.
                               state.tasks.add( detail::create::task( state, message, connection->descriptor()));
                               transaction::associate_and_involve( state, message, connection->descriptor());
+
+                              tcp::send( state, connection->descriptor(), message);
                            }
                            else
                            {
@@ -502,10 +504,11 @@ namespace casual
 
                            auto tcp = state.connections.partner( descriptor);
 
-                           tcp::send( state, tcp, message);
+                           // before the send - if we lose the connection during send the task needs to be there to be failed
                            state.tasks.add( detail::create::task( state, message, tcp));
-
                            transaction::associate_and_involve( state, message, tcp);
+
+                           tcp::send( state, tcp, message);
                         };
                      }  
                   } // basic
-- 
2.43.0


From 4924961ad9c35a20947e140d43cab695db598a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:39 +0000
Subject: [PATCH 14/34] fix: gateway outbound: a conversation on a lost
 connection is terminated for the one that connected

---
 .../gateway/source/group/outbound/handle.cpp  | 27 +++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index d3508f8..3e4983b 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -301,7 +301,7 @@ namespace casual
                               strong::ipc::id ipc;
                               platform::time::point::type start;
                               common::transaction::ID trid;
-
+                              bool connected = false;
                            };
 
                            auto shared = std::make_shared< Shared>( Shared{ message.service.name, message.parent, message.process.ipc, platform::time::clock::type::now(), message.trid});
@@ -318,6 +318,7 @@ namespace casual
                                     service::unadvertise( state, descriptor, { shared->service});
 
                                  state.multiplex.send( shared->ipc, message);
+                                 shared->connected = true;
 
                                  return task::concurrent::unit::Dispatch::pending;
                               },
@@ -344,9 +345,31 @@ namespace casual
 
                                  service::metric( state, message, std::move( *shared), { .result = code::xatmi::ok});
 
+                                 return task::concurrent::unit::Dispatch::done;
+                              },
+                              [ &state, shared]( const casual::task::concurrent::message::task::Failed& message, strong::socket::id descriptor)
+                              {
+                                 Trace trace{ "gateway::group::outbound::handle::local::internal::conversation::task task::Failed"};
+
+                                 // the caller waits for either the connect reply, or for something to receive.
+                                 auto reply_error = [ &]( auto&& reply)
+                                 {
+                                    reply.correlation = message.correlation;
+                                    reply.code.result = code::xatmi::service_error;
+                                    state.multiplex.send( shared->ipc, reply);
+                                 };
+
+                                 if( ! shared->connected)
+                                    reply_error( common::message::conversation::connect::Reply{});
+
+                                 common::message::conversation::callee::Send terminate;
+                                 terminate.duplex = decltype( terminate.duplex)::terminated;
+                                 reply_error( std::move( terminate));
+
+                                 service::metric( state, message, std::move( *shared), { .result = code::xatmi::service_error});
+
                                  return task::concurrent::unit::Dispatch::done;
                               }
-                              
                            };
                         }
 
-- 
2.43.0


From 2dceb1d3f6d917c2fb4449f3322749143ab14882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 15/34] fix: gateway inbound: transaction replies have the
 external trid

---
 middleware/gateway/source/group/inbound/task/create.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 2934185..9f25114 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -502,6 +502,9 @@ namespace casual
 
                using reply_type = common::message::reverse::type_t< M>;
 
+               // keep the external trid, the reply has to be mapped back.
+               auto origin_trid = message.trid;
+
                // map to the internal trid, we expect to find this in cache
                if( auto found = state.transaction_cache.find( common::transaction::id::range::global( message.trid)))
                {
@@ -516,7 +519,7 @@ namespace casual
                }
 
                return task_unit{ descriptor, message.correlation,
-                  [ &state, origin_trid = message.trid]( reply_type& reply, strong::socket::id descriptor)
+                  [ &state, origin_trid = std::move( origin_trid)]( reply_type& reply, strong::socket::id descriptor)
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_transaction task"};
 
-- 
2.43.0


From ec82d23a1787af9920385ac79a58bea46d864290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 16/34] fix: gateway inbound: enqueue and dequeue are replied
 when there is no queue manager

---
 middleware/gateway/source/group/inbound/task/create.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 9f25114..94daaf2 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -92,8 +92,9 @@ namespace casual
                      request.gtrid = common::transaction::id::range::global( message.trid);
 
                   //! if queue-manager is offline for some reason, we emulate "no-ent";
+                  //! the reply has to reach the "partner ipc", that's where the task waits for it.
                   if( ! state.multiplex.send( ipc::manager::optional::queue(), request))
-                     ipc::inbound().push( common::message::reverse::type( request));
+                     state.multiplex.send( request.process.ipc, common::message::reverse::type( request));
                }
 
             } // lookup
-- 
2.43.0


From 40b87c276a843dbdf8bb779841df7e8af5b9a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 17/34] fix: gateway inbound: a conversation that is rejected
 is done

---
 .../source/group/inbound/task/create.cpp       | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 94daaf2..74d7635 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -324,6 +324,8 @@ namespace casual
                   common::transaction::ID origin_trid;
                   common::message::conversation::connect::callee::Request message;
                   std::optional< common::message::service::lookup::Reply> lookup;
+                  // the connect has been replied with an error, there is no conversation.
+                  bool rejected = false;
                };
 
                local::lookup::service( state, descriptor, message);
@@ -364,11 +366,17 @@ namespace casual
                         }
                         case Enum::absent:
                            local::fake_conversation_connect_error_reply( state, descriptor, shared->message, code::xatmi::no_entry);
+                           shared->rejected = true;
                            break;
                         case Enum::timeout:
                            local::fake_conversation_connect_error_reply( state, descriptor, shared->message, code::xatmi::timeout);
+                           shared->rejected = true;
                            break;
                      }
+
+                     // if rejected, we're done, unless there is a branch reply to take care of.
+                     if( shared->rejected && ( ! shared->origin_trid || shared->origin_trid != shared->message.trid))
+                        return casual::task::concurrent::unit::Dispatch::done;
                      
                      return casual::task::concurrent::unit::Dispatch::pending;
 
@@ -381,6 +389,9 @@ namespace casual
 
                      shared->message.trid = std::move( reply.trid);
 
+                     if( shared->rejected)
+                        return casual::task::concurrent::unit::Dispatch::done;
+
                      if( shared->lookup)
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
 
@@ -391,6 +402,10 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation Send"};
 
+                     // there is no destination if the conversation has been rejected
+                     if( shared->rejected)
+                        return casual::task::concurrent::unit::Dispatch::pending;
+
                      CASUAL_ASSERT( shared->lookup);
 
                      // we send the message to the looked up destination
@@ -403,6 +418,9 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation Disconnect"};
 
+                     if( shared->rejected)
+                        return casual::task::concurrent::unit::Dispatch::pending;
+
                      CASUAL_ASSERT( shared->lookup);
 
                      // we send the message to the looked up destination
-- 
2.43.0


From aaa01c9ee095b56882d3cda97d4ba3e62b686c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:23 +0000
Subject: [PATCH 18/34] fix: gateway inbound: calls without replies are done
 when they are sent

---
 .../source/group/inbound/task/create.cpp       | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 74d7635..3fb73fc 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -22,6 +22,11 @@ namespace casual
       {
          namespace
          {
+            bool no_reply( const common::message::service::call::callee::Request& message)
+            {
+               return flag::contains( message.flags, common::message::service::call::request::Flag::no_reply);
+            }
+
             namespace lookup
             {
                template< typename C>
@@ -64,7 +69,7 @@ namespace casual
                   
                   // for service calls, it might be a _no-reply_ request.
                   if constexpr( std::same_as< M, common::message::service::call::callee::Request>)
-                     request.context.semantic = flag::contains( message.flags, common::message::service::call::request::Flag::no_reply) ? 
+                     request.context.semantic = local::no_reply( message) ?
                         Semantic::no_reply : Semantic::regular;
                   else
                      request.context.semantic = Semantic::regular;
@@ -249,8 +254,14 @@ namespace casual
                            // If the call wasn't in transaction, or we've branched the trid already.
                            // If the call failed, we've "sent" the reply, 
                            if( ! shared->origin_trid || shared->origin_trid != shared->message.trid)
+                           {
                               local::send::service_request( state, descriptor, *shared->lookup, shared->message);
 
+                              // nothing more to wait for if there will be no reply
+                              if( local::no_reply( shared->message))
+                                 return casual::task::concurrent::unit::Dispatch::done;
+                           }
+
                            break;
                         }
                         case Enum::absent:
@@ -273,8 +284,13 @@ namespace casual
                      shared->message.trid = std::move( reply.trid);
 
                      if( shared->lookup)
+                     {
                         local::send::service_request( state, descriptor, *shared->lookup, shared->message);
 
+                        if( local::no_reply( shared->message))
+                           return casual::task::concurrent::unit::Dispatch::done;
+                     }
+
                      return casual::task::concurrent::unit::Dispatch::pending;
                   },
                   [ &state, shared]( common::message::service::call::Reply& reply, strong::socket::id descriptor)
-- 
2.43.0


From 97a568d38923fa0a015d7ab461717bc1ec9c1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 19/34] fix: gateway outbound: a conversation that failed to
 connect is done

---
 middleware/gateway/source/group/outbound/handle.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/middleware/gateway/source/group/outbound/handle.cpp b/middleware/gateway/source/group/outbound/handle.cpp
index 3e4983b..1443459 100644
--- a/middleware/gateway/source/group/outbound/handle.cpp
+++ b/middleware/gateway/source/group/outbound/handle.cpp
@@ -318,6 +318,15 @@ namespace casual
                                     service::unadvertise( state, descriptor, { shared->service});
 
                                  state.multiplex.send( shared->ipc, message);
+
+                                 // if the connect failed there is no conversation to wait for.
+                                 using Result = decltype( message.code.result);
+                                 if( message.code.result != Result::absent && message.code.result != Result::ok)
+                                 {
+                                    service::metric( state, message, std::move( *shared), message.code);
+                                    return task::concurrent::unit::Dispatch::done;
+                                 }
+
                                  shared->connected = true;
 
                                  return task::concurrent::unit::Dispatch::pending;
-- 
2.43.0


From 3a8d500365e7d1d320b76ffa888485ab54b12634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 20/34] fix: a conversation that failed to connect is reported
 to the caller

---
 .../common/source/service/conversation/context.cpp    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/service/conversation/context.cpp b/middleware/common/source/service/conversation/context.cpp
index e907fd7..ca5785f 100644
--- a/middleware/common/source/service/conversation/context.cpp
+++ b/middleware/common/source/service/conversation/context.cpp
@@ -351,10 +351,19 @@ namespace casual
 
                   log::line( log::debug, "connect - reply: ", reply);
 
+                  // the instance is taken care of when there is a reply
+                  send_ack.release();
+
+                  // there is no conversation if the connect failed.
+                  using Result = decltype( reply.code.result);
+                  if( reply.code.result != Result::absent && reply.code.result != Result::ok)
+                  {
+                     common::transaction::context().current().replied( message.correlation);
+                     code::raise::error( reply.code.result, "failed to connect to service: ", service);
+                  }
                }
 
                unreserve.release();
-               send_ack.release();
 
 
                return descriptor;
-- 
2.43.0


From 75640a9a9a0c70d69189300e06e563b7fa2b099c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:09 +0000
Subject: [PATCH 21/34] fix: gateway inbound: the task of a conversation that
 failed to connect is removed

---
 .../gateway/source/group/inbound/handle.cpp      | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 418bffc..27e5891 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -84,7 +84,21 @@ namespace casual
                {
                   namespace connect
                   {
-                     auto reply = internal::basic_forward< common::message::conversation::connect::Reply>;
+                     auto reply( State& state)
+                     {
+                        return [ &state]( common::message::conversation::connect::Reply& message, strong::ipc::descriptor::id descriptor)
+                        {
+                           Trace trace{ "gateway::group::inbound::handle::conversation::connect::reply"};
+                           common::log::line( verbose::log, "message: ", message);
+
+                           tcp::send( state, state.connections.partner( descriptor), message);
+
+                           // if the connect failed there is no conversation, and we need to clean the task
+                           using Result = decltype( message.code.result);
+                           if( message.code.result != Result::absent && message.code.result != Result::ok)
+                              state.tasks.remove( message.correlation);
+                        };
+                     }
                      
                   } // connect
 
-- 
2.43.0


From 06292c5cca8403f28180ee15e6ec9440e87c0cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:39 +0000
Subject: [PATCH 22/34] fix: gateway inbound: a transaction that is branched
 after its request was rejected is remembered

---
 middleware/gateway/source/group/inbound/handle.cpp | 14 +++++++++++++-
 .../gateway/source/group/inbound/task/create.cpp   |  6 ------
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/middleware/gateway/source/group/inbound/handle.cpp b/middleware/gateway/source/group/inbound/handle.cpp
index 27e5891..3e9c8ce 100644
--- a/middleware/gateway/source/group/inbound/handle.cpp
+++ b/middleware/gateway/source/group/inbound/handle.cpp
@@ -234,7 +234,19 @@ namespace casual
 
                   namespace coordinate::inbound
                   {
-                     auto reply = internal::basic_task< common::message::transaction::inbound::branch::Reply>;
+                     auto reply( State& state)
+                     {
+                        return [ &state]( common::message::transaction::inbound::branch::Reply& message, strong::ipc::descriptor::id descriptor)
+                        {
+                           Trace trace{ "gateway::group::inbound::handle::local::internal::transaction::coordinate::inbound::reply"};
+                           common::log::line( verbose::log, "message: ", message);
+
+                           // the transaction is branched regardless if the task is still there, or not.
+                           state.transaction_cache.add( message.trid, state.connections.partner( descriptor));
+
+                           state.tasks( message);
+                        };
+                     }
                   } // coordinate::inbound   
 
                } // transaction
diff --git a/middleware/gateway/source/group/inbound/task/create.cpp b/middleware/gateway/source/group/inbound/task/create.cpp
index 3fb73fc..7d441ae 100644
--- a/middleware/gateway/source/group/inbound/task/create.cpp
+++ b/middleware/gateway/source/group/inbound/task/create.cpp
@@ -279,8 +279,6 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::service::call transaction::inbound::branch::Reply"};
 
-                     state.transaction_cache.add( reply.trid, descriptor);
-
                      shared->message.trid = std::move( reply.trid);
 
                      if( shared->lookup)
@@ -401,8 +399,6 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_conversation transaction::inbound::branch::Reply"};
 
-                     state.transaction_cache.add( reply.trid, descriptor);
-
                      shared->message.trid = std::move( reply.trid);
 
                      if( shared->rejected)
@@ -516,8 +512,6 @@ namespace casual
                   {
                      Trace trace{ "gateway::group::inbound::task::create::local::handle_queue transaction::lookup::Reply"};
 
-                     state.transaction_cache.add( reply.trid, descriptor);
-
                      shared->message.trid = std::move( reply.trid);
                      shared->wait_for_branch = false;
 
-- 
2.43.0


From 0e330de5fbdbbbe322e706351b1d26ad16e9c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 23/34] fix: server: a service whose transaction could not be
 finalized is answered with an error

---
 middleware/common/include/common/server/handle/service.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/middleware/common/include/common/server/handle/service.h b/middleware/common/include/common/server/handle/service.h
index 1ba578f..dc700c2 100644
--- a/middleware/common/include/common/server/handle/service.h
+++ b/middleware/common/include/common/server/handle/service.h
@@ -136,6 +136,7 @@ namespace casual
          // this will execute before execute_reply
          auto execute_error_reply = execute::scope( [&]()
          {
+            reply.code.result = code::xatmi::service_error;
             reply.transaction_state = policy.transaction( false);
          });
 
@@ -198,15 +199,12 @@ namespace casual
 
          // Do transaction stuff...
          // - commit/rollback transaction if service has "auto-transaction"
-         auto execute_transaction = execute::scope( [&]()
-         {
-            reply.transaction_state = policy.transaction( reply.transaction_state == decltype( reply.transaction_state)::ok);
-         });
+         // if this fails, execute_error_reply takes over
+         reply.transaction_state = policy.transaction( reply.transaction_state == decltype( reply.transaction_state)::ok);
 
          // Nothing did go wrong
          execute_error_reply.release();
 
-         execute_transaction();
          execute_reply();
          execute_unreserve_descriptor();
       }
-- 
2.43.0


From 7c466a1dad7f7d10b9065ec88400852b7a8d83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 24/34] fix: server: a forwarded call is not answered by the
 forwarding server as well

---
 middleware/common/include/common/server/handle/service.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/middleware/common/include/common/server/handle/service.h b/middleware/common/include/common/server/handle/service.h
index dc700c2..873c4bd 100644
--- a/middleware/common/include/common/server/handle/service.h
+++ b/middleware/common/include/common/server/handle/service.h
@@ -180,15 +180,16 @@ namespace casual
          {
             // TODO make this forward work without a copy of payload...
             policy.forward( std::move( forward), message);
-            
-            policy.transaction( true);
 
+            // the call is forwarded, from here on there's someone else that replies
             execute_reply.release();
             execute_error_reply.release();
 
             // reply.code.result is used to set outcome in the 'ack'. We might want a _forward_ code?
             reply.code.result = code::xatmi::ok;
 
+            policy.transaction( true);
+
             return;
          }
 
-- 
2.43.0


From ddd4e836bd907a53a326fe66288d1da5ca9057ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 25/34] fix: server: the transaction of a conversational
 service that fails is rolled back

---
 middleware/common/source/server/handle/service.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/server/handle/service.cpp b/middleware/common/source/server/handle/service.cpp
index 4701a7f..b7797c7 100644
--- a/middleware/common/source/server/handle/service.cpp
+++ b/middleware/common/source/server/handle/service.cpp
@@ -150,10 +150,15 @@ namespace casual
             reply.duplex = decltype( reply.duplex)::terminated;
 
             if( result.transaction == common::service::invoke::Result::Transaction::commit)
-               reply.code.result = code::xatmi::ok;  
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::ok;
+               reply.code.result = code::xatmi::ok;
+            }
             else
+            {
+               reply.transaction_state = decltype( reply.transaction_state)::rollback;
                reply.code.result = code::xatmi::service_fail;
-
+            }
 
             log::line( log::debug, "reply: ", reply);
          }
-- 
2.43.0


From 119f3447cdd4ddba7ff16509f7aa938256f66e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 26/34] fix: server: an error in a conversational service does
 not terminate the server

---
 .../common/source/server/handle/conversation.cpp      | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/middleware/common/source/server/handle/conversation.cpp b/middleware/common/source/server/handle/conversation.cpp
index 67aefec..51c1afb 100644
--- a/middleware/common/source/server/handle/conversation.cpp
+++ b/middleware/common/source/server/handle/conversation.cpp
@@ -13,6 +13,7 @@
 #include "common/communication/ipc.h"
 
 #include "common/execute.h"
+#include "common/exception/capture.h"
 
 namespace casual
 {
@@ -30,8 +31,14 @@ namespace casual
 
                policy::call::Default policy;
 
-               service::call( policy, common::service::conversation::context(), message, true);
-   
+               try
+               {
+                  service::call( policy, common::service::conversation::context(), message, true);
+               }
+               catch( ...)
+               {
+                  log::line( log::category::error, exception::capture());
+               }
             }
 
 
-- 
2.43.0


From 8911043f820db0bbc4eb49ecb75d603eff0bba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 27/34] fix: transaction context: a transaction with pending
 replies is not committed when the service returns

---
 middleware/common/source/transaction/context.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ddc0a6e..062daf3 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -550,6 +550,7 @@ namespace casual
                      log::line( log::category::transaction, transaction);
 
                      result = message::service::transaction::State::error;
+                     transaction.state = Transaction::State::rollback;
                   }
 
                   // Discard pending
-- 
2.43.0


From 34db0b3e18e73845071e1be89f53bc4adae3b45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:39 +0000
Subject: [PATCH 28/34] fix: transaction context: a chained transaction that
 fails to start does not hide the outcome of the previous

---
 middleware/common/source/transaction/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 062daf3..48f299e 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1162,7 +1162,7 @@ namespace casual
                   
                case Control::chained:
                   // We start a new one
-                  return code + begin();
+                  return begin() == code::tx::ok ? code : code + code::tx::no_begin;
 
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
-- 
2.43.0


From ffc2696431c7f70d9fe2f21f199525d249d1c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:42 +0000
Subject: [PATCH 29/34] fix: transaction context: the state a reply carries is
 not taken for another state

---
 middleware/common/source/transaction/context.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 48f299e..ff8b8db 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -510,7 +510,19 @@ namespace casual
 
             if( auto found = algorithm::find( m_transactions, reply.correlation))
             {
-               auto state = Transaction::State( reply.transaction_state);
+               // the enumerators of the message and the transaction (TX) do not have the same values
+               auto state = []( auto state)
+               {
+                  using State = decltype( state);
+                  switch( state)
+                  {
+                     case State::ok: return Transaction::State::active;
+                     case State::timeout: return Transaction::State::timeout;
+                     case State::rollback:
+                     case State::error: break;
+                  }
+                  return Transaction::State::rollback;
+               }( reply.transaction_state);
 
                if( found->state < state)
                   found->state = state;
-- 
2.43.0


From 814c20eac0bb6b7b92718c8d2d87c54a72bd4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:08 +0000
Subject: [PATCH 30/34] fix: transaction context: a transaction whose resources
 fail to end is rolled back, not abandoned

---
 middleware/common/source/transaction/context.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index ff8b8db..44b547c 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -840,7 +840,10 @@ namespace casual
 
             // end resources
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "commit - failed to end one or more resources");
+            {
+               // the transaction is consumed, it can't be left undecided
+               return local::log::code( code::tx::rollback + Context::rollback( transaction), "commit - failed to end one or more resources: ", code);
+            }
 
             if( transaction.local() && transaction.involved().size() <= 1)
             {
@@ -932,9 +935,9 @@ namespace casual
             Trace trace{ "transaction::Context::rollback"};
             casual::assertion( transaction, "not a valid transaction: ", transaction);
 
-            // end resources
+            // end resources. The transaction is consumed, we need to rollback regardless of how the resources ended
             if( auto code = local::resources::end::invoke( local::resources::end::policy::success(), transaction, m_resources.all); code != code::tx::ok)
-               return local::log::code( code, "rollback - failed to end one or more resources for transaction: ", transaction.trid);
+               log::line( log::category::error, code, " rollback - failed to end one or more resources for transaction: ", transaction.trid);
 
             if( transaction.local())
             {
-- 
2.43.0


From cc2f3bfbe29252e7a48fe1713a8009665d680852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:08 +0000
Subject: [PATCH 31/34] fix: transaction context: resources that did start are
 ended when another fails to start

---
 middleware/common/source/transaction/context.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 44b547c..de2c78b 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -477,15 +477,15 @@ namespace casual
          {
             Trace trace{ "transaction::Context::start"};
 
-            auto transaction = local::start::transaction();
+            // we need to keep track of the transaction even if some of the resources fail to start
+            auto& transaction = m_transactions.emplace_back( local::start::transaction());
 
             local::raise::code( local::resources::start::invoke( local::resources::start::policy::start(), transaction, m_resources.fixed),
                "failed to start on ore more fixed resources");
 
             local::log::event( "start", transaction.trid);
 
-            m_transactions.push_back( std::move( transaction));
-            return m_transactions.back();
+            return transaction;
          }
 
          Transaction& Context::branch( const transaction::ID& trid)
-- 
2.43.0


From 74b0f5ef5e4873018ab2453ecbd2391e83c4d749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:45 +0000
Subject: [PATCH 32/34] fix: transaction context: a suspend or resume that
 fails does not change which transaction is current

---
 middleware/common/source/transaction/context.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index de2c78b..5f17293 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1074,13 +1074,13 @@ namespace casual
 
             // We don't check if current transaction is aborted. This differs from Tuxedo's semantics
 
-            // mark the transaction as suspended
-            ongoing.suspend();
-
             // Tell the RM:s to suspend
             if( auto code = local::resources::end::invoke( local::resources::end::policy::suspend(), ongoing, m_resources.all); code != code::tx::ok)
                return local::log::code( code::tx::protocol, "suspend: failed to suspend one or more resources");
 
+            // mark the transaction as suspended
+            ongoing.suspend();
+
             *xid = ongoing.trid.xid;
 
             local::log::event( "suspend", ongoing.trid);
@@ -1100,12 +1100,12 @@ namespace casual
                if( ! found->suspended())
                   return local::log::code( code::tx::protocol, "resume: wanted transaction is not suspended");
 
-               found->resume();
-
                // Tell the RM:s to resume
                if( auto code = local::resources::start::invoke( local::resources::start::policy::resume(), *found, m_resources.fixed); code != code::tx::ok)
                   return local::log::code( code::tx::argument, "resume: failed to resume one or more fixed resources");
 
+               found->resume();
+
                // We rotate the wanted to end;
                algorithm::rotate( m_transactions, ++found);
 
-- 
2.43.0


From 0de094283261aa606f2a4735d4535916a07d6f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:15 +0000
Subject: [PATCH 33/34] fix: transaction context: a stacked transaction is
 resumed on the fixed resources only, as it is elsewhere

---
 middleware/common/source/transaction/context.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/middleware/common/source/transaction/context.cpp b/middleware/common/source/transaction/context.cpp
index 5f17293..5d3eeef 100644
--- a/middleware/common/source/transaction/context.cpp
+++ b/middleware/common/source/transaction/context.cpp
@@ -1182,7 +1182,7 @@ namespace casual
                case Control::stacked:
                   // Tell the RM:s to resume, if we've got a transaction
                   if( auto& current = Context::current())
-                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.all);
+                     return code + local::resources::start::invoke( local::resources::start::policy::resume(), current, m_resources.fixed);
                   return code;
             }
 
-- 
2.43.0


From 07c4b09754da91183d07e65f30c16a217c45499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:25 +0000
Subject: [PATCH 34/34] fix: service manager: a new order of an instance did
 not reach the services it serves, requests went to the instances preferred
 before

---
 middleware/service/include/service/manager/state.h | 3 ++-
 middleware/service/source/manager/state.cpp        | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/middleware/service/include/service/manager/state.h b/middleware/service/include/service/manager/state.h
index 4d7038c..69cdd1f 100644
--- a/middleware/service/include/service/manager/state.h
+++ b/middleware/service/include/service/manager/state.h
@@ -314,7 +314,8 @@ namespace casual
                //!   Otherwise, the first instance, and rotate.
                instance::concurrent::id::type next_concurrent( std::span< instance::concurrent::id::type> preferred) noexcept;
 
-               void update_prioritized();
+               //! updates the order of the instance (if present), and the prioritized
+               void update_prioritized( instance::concurrent::id::type id, platform::size::type order);
 
                inline const auto& sequential() const noexcept { return m_sequential;}
                inline const auto& concurrent() const noexcept { return m_concurrent;}
diff --git a/middleware/service/source/manager/state.cpp b/middleware/service/source/manager/state.cpp
index 95c349c..b717072 100644
--- a/middleware/service/source/manager/state.cpp
+++ b/middleware/service/source/manager/state.cpp
@@ -155,8 +155,11 @@ namespace casual
                return algorithm::random::next( m_prioritized_concurrent)->id;
             }
 
-            void Instances::update_prioritized()
+            void Instances::update_prioritized( instance::concurrent::id::type id, platform::size::type order)
             {
+               if( auto found = algorithm::find( m_concurrent, id))
+                  found->order = order;
+
                algorithm::stable_sort( m_concurrent);
                prioritize();
             }
@@ -760,7 +763,7 @@ namespace casual
 
             // We need to go through all services and update order/prio
             for( auto service_id : services.indexes())
-               services[ service_id].instances.update_prioritized();
+               services[ service_id].instances.update_prioritized( id, message.order);
 
             // nothing added, no new services available.
             return {};
-- 
2.43.0

