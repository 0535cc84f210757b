From 5833a15fec5c8239aa1eb02371c65902f2788341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 01/41] fix: throw instead of crashing when parse(argc, argv)
 is called on a used parser

---
 src/Argos/ArgumentParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 61ab47d..d2bd6db 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -119,6 +119,7 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             return parse(std::vector<std::string_view>());
 
-- 
2.43.0


From c4603753aa4956900150c1cbf4a19a4639fb965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 02/41] fix: parse(argc, argv) throws when argc is 0, as
 documented

---
 src/Argos/ArgumentParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index d2bd6db..e142831 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -121,7 +121,7 @@ namespace argos
     {
         check_data();
         if (argc <= 0)
-            return parse(std::vector<std::string_view>());
+            ARGOS_THROW("argc and argv must at least contain the command name.");
 
         if (m_data->command.name == DEFAULT_NAME
             && std::strlen(argv[0]) != 0)
@@ -135,7 +135,7 @@ namespace argos
     ParsedArguments ArgumentParser::parse(int argc, char** argv) const
     {
         if (argc <= 0)
-            return parse(std::vector<std::string_view>());
+            ARGOS_THROW("argc and argv must at least contain the command name.");
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
-- 
2.43.0


From 5e69c5d1e93f7cdfd329d61e837ca5373f1342d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 03/41] fix: keep the version option when a parser is used
 through its const interface

---
 src/Argos/ArgumentParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index e142831..3ff0ee0 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -26,6 +26,7 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
-- 
2.43.0


From 3925360dbef28a3db4972c048b9f67c77531de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 04/41] fix: copy the visibility of commands

---
 src/Argos/CommandData.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 16523d0..a330157 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -24,6 +24,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -49,6 +50,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -67,6 +69,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -103,6 +106,7 @@ namespace argos
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = std::move(rhs.section);
-- 
2.43.0


From 5c1e5a880ef516a11ed4869994891a3fa7def8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 05/41] fix: make case-insensitive ordering of flags consistent

---
 src/Argos/StringUtilities.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Argos/StringUtilities.cpp b/src/Argos/StringUtilities.cpp
index d992c99..3e10e50 100644
--- a/src/Argos/StringUtilities.cpp
+++ b/src/Argos/StringUtilities.cpp
@@ -65,11 +65,13 @@ namespace argos
     {
         if (c1 == c2)
             return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        // Only letters can be folded, applying the mask to other characters
+        // makes the result inconsistent, i.e. not a strict weak ordering.
+        const auto fold = [](int c)
+        {
+            return 'A' <= c && c <= 'Z' ? c - 'A' + 'a' : c;
+        };
+        return fold(c1) - fold(c2);
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
-- 
2.43.0


From 2711af62c41109a218320a1db536688ba0e74cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:47 +0000
Subject: [PATCH 06/41] fix: do not produce the same slash or dash style
 argument twice

---
 src/Argos/OptionIterator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/OptionIterator.cpp b/src/Argos/OptionIterator.cpp
index 27b0d71..2866430 100644
--- a/src/Argos/OptionIterator.cpp
+++ b/src/Argos/OptionIterator.cpp
@@ -78,7 +78,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
-- 
2.43.0


From 5918f8b7a5964fd4ace1b6d7e16bff60fa5b74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 07/41] fix: keep replaced and cleared values alive while there
 can be references to them

---
 src/Argos/ParsedArgumentsImpl.cpp | 17 +++++++----------
 src/Argos/ParsedArgumentsImpl.hpp |  3 +++
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index 15ef0ef..78a2a07 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -91,15 +91,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -112,7 +105,11 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Callbacks and ArgumentIterator may still have string_views that refer
+        // to the old values.
+        auto [first, last] = m_values.equal_range(value_id);
+        while (first != last)
+            m_removed_values.push_back(m_values.extract(first++));
     }
 
     ValueId
diff --git a/src/Argos/ParsedArgumentsImpl.hpp b/src/Argos/ParsedArgumentsImpl.hpp
index aace419..c7216a1 100644
--- a/src/Argos/ParsedArgumentsImpl.hpp
+++ b/src/Argos/ParsedArgumentsImpl.hpp
@@ -77,6 +77,9 @@ namespace argos
     private:
         /// The values received from ArgumentIteratorImpl.
         std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        /// Values that have been replaced or cleared. They are kept because
+        /// there can be string_views that refer to them.
+        std::vector<decltype(m_values)::node_type> m_removed_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
-- 
2.43.0


From 514c74a9709ee9b2881f6b713190d32cb82493e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 08/41] fix: assign the initial values of options in
 subcommands

---
 src/Argos/ArgumentIteratorImpl.cpp | 27 +++++++++++++++++----------
 src/Argos/ArgumentIteratorImpl.hpp |  2 ++
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 1034c88..f7a49f4 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -51,16 +51,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        set_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -322,6 +313,7 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        set_initial_values();
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -335,6 +327,21 @@ namespace argos
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e81b04c..e739793 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -74,6 +74,8 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void set_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
         [[nodiscard]] size_t count_arguments() const;
-- 
2.43.0


From d9b01f3d21cc54a8eb057c0b73cd15ab577b5335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 09/41] fix: accept command lines that leave two or more
 arguments without values

---
 src/Argos/ArgumentCounter.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index de1616c..5bd1fc7 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -121,9 +121,12 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (auto i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
     }
 
     std::pair<size_t, size_t>
-- 
2.43.0


From f6b465255a3ea0afabef22a852199846d18c46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 10/41] fix: display the full name of subcommands of
 subcommands

---
 src/Argos/CommandData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index a330157..152ae6d 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -446,7 +446,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
-- 
2.43.0


From b9a65846e378c8a2848adb3ba69fb502672f9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 11/41] fix: throw instead of crashing when copying from a
 moved-from command

---
 src/Argos/Command.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/Command.cpp b/src/Argos/Command.cpp
index e5993f4..1402b12 100644
--- a/src/Argos/Command.cpp
+++ b/src/Argos/Command.cpp
@@ -167,7 +167,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
-- 
2.43.0


From d7e52759068ff9f08d82a1edba4c6ce5db87f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 12/41] fix: copy_from refuses to mix arguments and
 subcommands, just like add

---
 src/Argos/CommandData.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 152ae6d..9264b29 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -154,6 +154,12 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
-- 
2.43.0


From c3a78d7e904d96ed129166aa2a4da4132dc80001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 13/41] fix: CommandView::help returns the help text, as
 documented

---
 src/Argos/CommandView.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/CommandView.cpp b/src/Argos/CommandView.cpp
index d1f9cef..087a2d1 100644
--- a/src/Argos/CommandView.cpp
+++ b/src/Argos/CommandView.cpp
@@ -18,7 +18,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
-- 
2.43.0


From 7d986241cefee156c3c6a0bdc1167bda394fe77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 14/41] fix: generate the documented -help flag for dash style
 options

---
 src/Argos/CommandData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 9264b29..7a621b6 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -320,7 +320,7 @@ namespace argos
             case OptionStyle::DASH:
                 if (!has_flag(cmd, "-h", settings))
                     flags.emplace_back("-h");
-                else if (!has_flag(cmd, "-help", settings))
+                if (!has_flag(cmd, "-help", settings))
                     flags.emplace_back("-help");
                 break;
             }
-- 
2.43.0


From a641a1c8361bd3e708482bb6e3be9e4cafdeb847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 15/41] fix: ArgumentValues reports invalid indexes as
 documented

---
 src/Argos/ArgumentValues.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Argos/ArgumentValues.cpp b/src/Argos/ArgumentValues.cpp
index cea150c..8a0ab1c 100644
--- a/src/Argos/ArgumentValues.cpp
+++ b/src/Argos/ArgumentValues.cpp
@@ -151,7 +151,10 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
-        const auto& [value, arg_id] = m_values.at(index);
+        if (index >= m_values.size())
+            error("There is no value with index " + std::to_string(index) + ".");
+
+        const auto& [value, arg_id] = m_values[index];
         return {value, m_args, m_value_id, arg_id};
     }
 
-- 
2.43.0


From 3609f49a37589b194f980602884ecf9a30fc6a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 16/41] fix: require the mandatory options of every command on
 the command line

---
 src/Argos/ArgumentIteratorImpl.cpp | 28 ++++++++++++++++++++++++----
 src/Argos/ArgumentIteratorImpl.hpp |  8 ++++++++
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index f7a49f4..3d530a5 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -276,6 +276,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -412,10 +414,11 @@ namespace argos
 
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
-        auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(0))
             return false;
 
+        auto& parsed_args = *parsed_arguments();
+
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
         {
             error("No command was given.");
@@ -501,9 +504,15 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
+    {
+        error(message, *m_command);
+    }
+
+    void ArgumentIteratorImpl::error(const std::string& message,
+                                     const CommandData& command)
     {
         if (!message.empty())
-            write_error_message(*m_data, *m_command, message);
+            write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
             exit(m_data->parser_settings.error_exit_code);
@@ -514,6 +523,17 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options(size_t first_index)
+    {
+        for (size_t i = first_index; i < m_parsed_args.size(); ++i)
+        {
+            const auto& parsed_args = *m_parsed_args[i];
+            if (!has_all_mandatory_options(parsed_args, *parsed_args.command()))
+                return false;
+        }
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
@@ -525,7 +545,7 @@ namespace argos
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
-                error("Mandatory option is missing: " + flags);
+                error("Mandatory option is missing: " + flags, command);
                 return false;
             }
         }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index e739793..1f6f1ff 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -94,6 +94,14 @@ namespace argos
 
         void error(const std::string& message = {});
 
+        void error(const std::string& message, const CommandData& command);
+
+        /**
+         * Check the mandatory options of the active commands, starting with
+         * the one at first_index.
+         */
+        bool has_all_mandatory_options(size_t first_index);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
-- 
2.43.0


From c2bcf7cbdf966f3e2d3ed4bc6f2e5544111a2f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 17/41] fix: set the result code of all commands on the command
 line

---
 src/Argos/ArgumentIteratorImpl.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 3d530a5..b272123 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -203,11 +203,13 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
@@ -481,6 +483,8 @@ namespace argos
 
     void ArgumentIteratorImpl::reactivate_multi_command_parent(size_t index)
     {
+        for (size_t i = index + 1; i < m_parsed_args.size(); ++i)
+            m_parsed_args[i]->set_result_code(ParserResultCode::SUCCESS);
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
-- 
2.43.0


From 44fadfcce214e437d00a635a1ee05819f72fdd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 18/41] fix: never mistake an argument for an abbreviated
 option when counting arguments

---
 src/Argos/ArgumentIteratorImpl.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index b272123..af14364 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -361,10 +361,14 @@ namespace argos
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
         for (auto arg = it.next(); arg; arg = it.next())
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            const OptionData* option = nullptr;
+            if (is_option(*arg, m_data->parser_settings.option_style))
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
-- 
2.43.0


From 8be4d268c3b6c5304072d1019f4c733ec999a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 19/41] fix: do not count arguments that come after an EXIT
 option

---
 src/Argos/ArgumentIteratorImpl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index af14364..b9f2b72 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -382,6 +382,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
-- 
2.43.0


From f6753f3306431ba81d7e7ee7d2abe391890083ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 20/41] fix: count the arguments that follow those inserted by
 callbacks correctly

---
 src/Argos/ArgumentIteratorImpl.cpp | 27 +++++++++++++++++++--------
 src/Argos/ArgumentIteratorImpl.hpp |  9 ++++++++-
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index b9f2b72..edf2864 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -181,6 +181,9 @@ namespace argos
             break;
         }
 
+        if (opt.type == OptionType::LAST_OPTION)
+            m_state = State::ARGUMENTS_ONLY;
+
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
@@ -215,7 +218,6 @@ namespace argos
             m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
-            m_state = State::ARGUMENTS_ONLY;
             return {OptionResult::NORMAL, arg};
         }
         return {};
@@ -318,6 +320,7 @@ namespace argos
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
         set_initial_values();
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -327,7 +330,6 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
@@ -354,13 +356,16 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t result) const
     {
-        size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        while (m_state == State::ARGUMENTS_AND_OPTIONS)
         {
+            auto arg = it.next();
+            if (!arg)
+                break;
+
             const OptionData* option = nullptr;
             if (is_option(*arg, m_data->parser_settings.option_style))
             {
@@ -399,7 +404,7 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (result >= min_count && find_multi_command(*arg).first)
                     return result;
 
                 ++result;
@@ -411,7 +416,7 @@ namespace argos
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (result >= min_count && find_multi_command(*arg).first)
                 return result;
 
             ++result;
@@ -474,6 +479,12 @@ namespace argos
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
 
+        return find_multi_command(name);
+    }
+
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -507,7 +518,7 @@ namespace argos
             return;
 
         auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
+        auto total_count = count_arguments(current_count);
         m_argument_counter = ArgumentCounter(*m_command, total_count,
                                              current_count);
     }
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 1f6f1ff..96be485 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -78,13 +78,20 @@ namespace argos
 
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        /**
+         * Returns @a result plus the number of arguments that are left for
+         * the current command.
+         */
+        [[nodiscard]] size_t count_arguments(size_t result = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
-- 
2.43.0


From 241a1df8e35c2e66da44b8f0537d9485714bb24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 21/41] fix: let NONE and CLEAR options consume their argument

---
 src/Argos/ArgumentIteratorImpl.cpp | 13 ++++++++++++-
 src/Argos/ParsedArgumentsImpl.cpp  |  8 ++++++++
 src/Argos/ParsedArgumentsImpl.hpp  |  6 ++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index edf2864..b965179 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -176,8 +176,19 @@ namespace argos
             break;
         case OptionOperation::CLEAR:
             parsed_args->clear_value(opt.value_id);
-            break;
+            [[fallthrough]];
         case OptionOperation::NONE:
+            if (opt.argument.empty())
+                break;
+            if (const auto value = m_iterator.next_value())
+            {
+                arg = parsed_args->keep_value(*value);
+            }
+            else
+            {
+                error(flag + ": no value given.");
+                return {OptionResult::ERROR, {}};
+            }
             break;
         }
 
diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index 78a2a07..a40b09d 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -112,6 +112,14 @@ namespace argos
             m_removed_values.push_back(m_values.extract(first++));
     }
 
+    std::string_view ParsedArgumentsImpl::keep_value(const std::string& value)
+    {
+        decltype(m_values) values;
+        values.insert({ValueId(), {value, ArgumentId()}});
+        m_removed_values.push_back(values.extract(values.begin()));
+        return m_removed_values.back().mapped().first;
+    }
+
     ValueId
     ParsedArgumentsImpl::get_value_id(std::string_view value_name) const
     {
diff --git a/src/Argos/ParsedArgumentsImpl.hpp b/src/Argos/ParsedArgumentsImpl.hpp
index c7216a1..5e73ed1 100644
--- a/src/Argos/ParsedArgumentsImpl.hpp
+++ b/src/Argos/ParsedArgumentsImpl.hpp
@@ -36,6 +36,12 @@ namespace argos
 
         void clear_value(ValueId value_id);
 
+        /**
+         * Returns a string_view referring to a copy of value which doesn't
+         * become one of the parsed values.
+         */
+        std::string_view keep_value(const std::string& value);
+
         [[nodiscard]] ValueId get_value_id(std::string_view value_name) const;
 
         [[nodiscard]] std::optional<std::pair<std::string_view, ArgumentId>>
-- 
2.43.0


From 2dda6aebc320f0d3f79c914596e80513ce126dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 22/41] fix: link all options and arguments that refer to each
 other through aliases

---
 src/Argos/CommandData.cpp | 83 +++++++++++++++++++--------------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index 7a621b6..cd835bb 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -340,9 +340,10 @@ namespace argos
                          ValueId value_id_offset,
                          ArgumentId argument_id_offset)
         {
+            // Gives names that refer to the same value the same id.
             struct InternalIdMaker
             {
-                std::map<std::string_view, ValueId> explicit_ids;
+                std::map<std::string_view, ValueId> ids;
                 int id;
 
                 explicit InternalIdMaker(ValueId start_id)
@@ -350,34 +351,32 @@ namespace argos
                 {
                 }
 
-                std::optional<ValueId> find_value_id(std::string_view name)
+                void link(const std::vector<std::string_view>& names)
                 {
-                    const auto it = explicit_ids.find(name);
-                    if (it == explicit_ids.end())
-                        return {};
-                    return it->second;
-                }
-
-                ValueId get_value_id(std::string_view name)
-                {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> value_id;
+                    for (const auto& name : names)
+                    {
+                        const auto it = ids.find(name);
+                        if (it == ids.end())
+                            continue;
+                        if (!value_id)
+                            value_id = it->second;
+                        else if (*value_id != it->second)
+                            replace(it->second, *value_id);
+                    }
+                    if (!value_id)
+                        value_id = ValueId(++id);
+                    for (const auto& name : names)
+                        ids.emplace(name, *value_id);
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == old_id)
+                            value_id = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
@@ -385,32 +384,32 @@ namespace argos
             InternalIdMaker id_maker(value_id_offset);
             for (const auto& a : cmd.arguments)
             {
-                a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                id_maker.link(names);
             }
             for (const auto& o : cmd.options)
             {
-                o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                id_maker.link(names);
+            }
+
+            for (const auto& a : cmd.arguments)
+            {
+                a->argument_id = ArgumentId(++argument_id);
+                a->value_id = id_maker.ids.at(a->name);
+            }
+            for (const auto& o : cmd.options)
+            {
+                o->argument_id = ArgumentId(++argument_id);
+                if (o->operation != OptionOperation::NONE)
+                    o->value_id = id_maker.ids.at(o->flags.front());
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
-- 
2.43.0


From 7a9394589c4bd17ea7bef235c37a8a3eed6639ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 23/41] fix: a value knows its source also when it is looked up
 with a view

---
 src/Argos/ParsedArguments.cpp        | 2 +-
 src/Argos/ParsedArgumentsBuilder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Argos/ParsedArguments.cpp b/src/Argos/ParsedArguments.cpp
index dc9881c..740c2c3 100644
--- a/src/Argos/ParsedArguments.cpp
+++ b/src/Argos/ParsedArguments.cpp
@@ -70,7 +70,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
diff --git a/src/Argos/ParsedArgumentsBuilder.cpp b/src/Argos/ParsedArgumentsBuilder.cpp
index c189735..fac5a32 100644
--- a/src/Argos/ParsedArgumentsBuilder.cpp
+++ b/src/Argos/ParsedArgumentsBuilder.cpp
@@ -76,7 +76,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
-- 
2.43.0


From 4a1b8f7a90a65f0fd65e7e478ffb2cb663def0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 24/41] fix: a carriage return at the end of a name is a line
 break, not an out-of-range error

---
 src/Argos/TextFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ff39e22..ba3225b 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -22,7 +22,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
-- 
2.43.0


From 94a582ae730810439277ea582d3f8c2a0c9b56ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 25/41] fix: let a command safely be copied from itself

---
 src/Argos/CommandData.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Argos/CommandData.cpp b/src/Argos/CommandData.cpp
index cd835bb..7088838 100644
--- a/src/Argos/CommandData.cpp
+++ b/src/Argos/CommandData.cpp
@@ -154,6 +154,13 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if (&cmd == this)
+        {
+            // The containers can't be extended while they're traversed.
+            copy_from(CommandData(cmd));
+            return;
+        }
+
         if ((!arguments.empty() || !cmd.arguments.empty())
             && (!commands.empty() || !cmd.commands.empty()))
         {
-- 
2.43.0


From efada51c027bb8b29e59447dfe9b4e97cc48479f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 26/41] fix: a lone list marker no longer affects the alignment
 of the text after it

---
 src/Argos/TextFormatter.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index ba3225b..be5b866 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -273,9 +273,7 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
-- 
2.43.0


From 717ec7e08d93821bbe6942960ad3e12c1004994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:43 +0000
Subject: [PATCH 27/41] fix: do not split a word from its punctuation

---
 src/Argos/WordSplitter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Argos/WordSplitter.cpp b/src/Argos/WordSplitter.cpp
index 07ae812..292959f 100644
--- a/src/Argos/WordSplitter.cpp
+++ b/src/Argos/WordSplitter.cpp
@@ -71,6 +71,9 @@ namespace argos
             {
                 if (split.index < start_index + 1)
                     continue;
+                // Don't separate the word from the punctuation after it.
+                if (split.index == key.size() && key.size() != word.size())
+                    break;
                 length += count_code_points(word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
-- 
2.43.0


From aabb1e2e2b2835a9c62896b0ddf9b2c11d64cf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:01 +0000
Subject: [PATCH 28/41] fix: values inserted by callbacks never exceed an
 argument's maximum count

When a callback inserted arguments, all values, including those that had
already been assigned, were distributed anew. An argument could then get
more values than its maximum, or be considered as incomplete.
---
 src/Argos/ArgumentCounter.cpp      | 48 +++++++++++++++++++++++++-----
 src/Argos/ArgumentCounter.hpp      | 21 +++++++++++--
 src/Argos/ArgumentIteratorImpl.cpp | 24 ++++++++++-----
 src/Argos/ArgumentIteratorImpl.hpp |  3 +-
 4 files changed, 79 insertions(+), 17 deletions(-)

diff --git a/src/Argos/ArgumentCounter.cpp b/src/Argos/ArgumentCounter.cpp
index 5bd1fc7..706407b 100644
--- a/src/Argos/ArgumentCounter.cpp
+++ b/src/Argos/ArgumentCounter.cpp
@@ -7,6 +7,8 @@
 //****************************************************************************
 #include "ArgumentCounter.hpp"
 
+#include <algorithm>
+
 namespace argos
 {
     namespace
@@ -89,27 +91,25 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
-                                     size_t argument_count,
-                                     size_t initial_count)
+                                     size_t argument_count)
         : m_counters(make_argument_counters(command, argument_count)),
           m_first_optional(m_counters.size())
     {
-        for (size_t i = 0; i < initial_count; ++i)
-        {
-            if (next_argument() == nullptr)
-                break;
-        }
     }
 
     const ArgumentData* ArgumentCounter::next_argument()
     {
         while (m_index != m_counters.size() && m_counters[m_index].first == 0)
+        {
             ++m_index;
+            m_current_count = 0;
+        }
 
         if (m_index == m_counters.size())
             return nullptr;
 
         ++m_counter;
+        ++m_current_count;
         --m_counters[m_index].first;
         return m_counters[m_index].second;
     }
@@ -129,6 +129,40 @@ namespace argos
         return true;
     }
 
+    size_t ArgumentCounter::min_remaining_count() const
+    {
+        size_t result = 0;
+        for (auto i = m_index; i < m_counters.size(); ++i)
+            result += min_remaining_count(i);
+        return result;
+    }
+
+    void ArgumentCounter::set_remaining_count(size_t n)
+    {
+        const auto lo = min_remaining_count();
+        n -= std::min(n, lo);
+        for (auto i = m_index; i < m_counters.size(); ++i)
+        {
+            auto& [count, arg] = m_counters[i];
+            const auto min_count = min_remaining_count(i);
+            const auto extra = std::min<size_t>(
+                n, arg->max_count - received_count(i) - min_count);
+            count = min_count + extra;
+            n -= extra;
+        }
+    }
+
+    size_t ArgumentCounter::received_count(size_t index) const
+    {
+        return index == m_index ? m_current_count : 0;
+    }
+
+    size_t ArgumentCounter::min_remaining_count(size_t index) const
+    {
+        const size_t min_count = m_counters[index].second->min_count;
+        return min_count - std::min(min_count, received_count(index));
+    }
+
     std::pair<size_t, size_t>
     ArgumentCounter::get_min_max_count(const CommandData& command)
     {
diff --git a/src/Argos/ArgumentCounter.hpp b/src/Argos/ArgumentCounter.hpp
index bcf71fd..06eafff 100644
--- a/src/Argos/ArgumentCounter.hpp
+++ b/src/Argos/ArgumentCounter.hpp
@@ -20,8 +20,7 @@ namespace argos
         explicit ArgumentCounter(const CommandData& command);
 
         ArgumentCounter(const CommandData& command,
-                        size_t argument_count,
-                        size_t initial_count = 0);
+                        size_t argument_count);
 
         const ArgumentData* next_argument();
 
@@ -29,16 +28,34 @@ namespace argos
 
         [[nodiscard]] bool is_complete() const;
 
+        /**
+         * @brief Returns the least number of values that must be given to
+         *      the current and the following arguments.
+         */
+        [[nodiscard]] size_t min_remaining_count() const;
+
+        /**
+         * @brief Distributes @a n more values among the current and
+         *      the following arguments.
+         */
+        void set_remaining_count(size_t n);
+
         static std::pair<size_t, size_t>
         get_min_max_count(const CommandData& command);
 
         static bool requires_argument_count(const CommandData& command);
 
     private:
+        [[nodiscard]] size_t received_count(size_t index) const;
+
+        [[nodiscard]] size_t min_remaining_count(size_t index) const;
+
         using Counter = std::pair<size_t, const ArgumentData*>;
         std::vector<Counter> m_counters;
         size_t m_index = 0;
         size_t m_first_optional = 0;
         size_t m_counter = 0;
+        // The number of values the argument at m_index has received.
+        size_t m_current_count = 0;
     };
 }
diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index b965179..6547fc0 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -195,17 +195,19 @@ namespace argos
         if (opt.type == OptionType::LAST_OPTION)
             m_state = State::ARGUMENTS_ONLY;
 
+        const auto is_last = opt.type != OptionType::NORMAL
+                             && opt.type != OptionType::LAST_OPTION;
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             opt.callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, is_last);
         }
         if (m_data->parser_settings.option_callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             m_data->parser_settings.option_callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, is_last);
         }
 
         switch (opt.type)
@@ -519,7 +521,7 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::update_arguments(
-        const std::vector<std::string>& args)
+        const std::vector<std::string>& args, bool is_last)
     {
         if (args.empty())
             return;
@@ -528,10 +530,18 @@ namespace argos
         if (!ArgumentCounter::requires_argument_count(*m_command))
             return;
 
-        auto current_count = m_argument_counter.count();
-        auto total_count = count_arguments(current_count);
-        m_argument_counter = ArgumentCounter(*m_command, total_count,
-                                             current_count);
+        if (is_last)
+        {
+            m_argument_counter.set_remaining_count(0);
+            return;
+        }
+
+        // The values that have already been assigned to arguments can't be
+        // moved, only the remaining ones can be distributed.
+        const auto min_count = ArgumentCounter::get_min_max_count(*m_command).first
+                               - m_argument_counter.min_remaining_count();
+        m_argument_counter.set_remaining_count(count_arguments(min_count)
+                                               - min_count);
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
diff --git a/src/Argos/ArgumentIteratorImpl.hpp b/src/Argos/ArgumentIteratorImpl.hpp
index 96be485..c2d0e03 100644
--- a/src/Argos/ArgumentIteratorImpl.hpp
+++ b/src/Argos/ArgumentIteratorImpl.hpp
@@ -97,7 +97,8 @@ namespace argos
 
         void reactivate_multi_command_parent(size_t index);
 
-        void update_arguments(const std::vector<std::string>& args);
+        void update_arguments(const std::vector<std::string>& args,
+                              bool is_last = false);
 
         void error(const std::string& message = {});
 
-- 
2.43.0


From 2fa36ca2ca76860dec3a4df99e1f43ece50bfe39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:50 +0000
Subject: [PATCH 29/41] fix: take the program name from argv in const parse and
 in make_iterator

A parser made without a name gets its name from argv[0] when the non-const
parse() is called, but iterators and const parsers kept the placeholder
UNINITIALIZED in error messages and help texts.
---
 src/Argos/ArgumentParser.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/Argos/ArgumentParser.cpp b/src/Argos/ArgumentParser.cpp
index 3ff0ee0..35df7c8 100644
--- a/src/Argos/ArgumentParser.cpp
+++ b/src/Argos/ArgumentParser.cpp
@@ -32,6 +32,12 @@ namespace argos
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void set_default_name(ParserData& data, const char* arg0)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(arg0) != 0)
+                data.command.name = get_base_name(arg0);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -124,20 +130,19 @@ namespace argos
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
 
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
-
+        set_default_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -154,16 +159,23 @@ namespace argos
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+
+        set_default_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
-- 
2.43.0


From 9b39ed035f1872eedb98d3c569eac11d0ccdd322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:40 +0000
Subject: [PATCH 30/41] fix: do not pass negative characters to std::isdigit

---
 src/Argos/TextFormatter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index be5b866..91e8a1f 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -6,6 +6,7 @@
 // License text is included with the source distribution.
 //****************************************************************************
 #include <algorithm>
+#include <cctype>
 #include <iostream>
 #include "ArgosThrow.hpp"
 #include "ConsoleWidth.hpp"
@@ -66,7 +67,7 @@ namespace argos
             if (str.size() > 1 && str.back() == '.')
             {
                 return std::all_of(str.begin(), str.end() - 1,
-                                   [](auto c) {return std::isdigit(c);});
+                                   [](auto c) {return std::isdigit(static_cast<unsigned char>(c));});
             }
 
             return false;
-- 
2.43.0


From 402f1cd5b4843919f1333c98e16b225913d34387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:40 +0000
Subject: [PATCH 31/41] fix: keep the space before a word that follows a list
 marker at the end of a line

---
 src/Argos/TextFormatter.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index 91e8a1f..1cba4c0 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -108,13 +108,14 @@ namespace argos
 
     void TextFormatter::push_indentation(unsigned indent)
     {
-        if (indent == CURRENT_COLUMN)
-        {
+        const bool current_column = indent == CURRENT_COLUMN;
+        if (current_column)
             indent = m_writer.current_width();
+        if (!m_writer.set_indentation(indent))
+            indent = m_writer.indentation();
+        else if (current_column)
             m_writer.set_spaces(0);
-        }
         m_indents.push_back(indent);
-        m_writer.set_indentation(indent);
     }
 
     void TextFormatter::pop_indentation()
-- 
2.43.0


From 794ba109c81cc52faf41a619cb764a608b298a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:38 +0000
Subject: [PATCH 32/41] fix: don't indent what follows a line that begins with
 both tabs and spaces

---
 src/Argos/TextFormatter.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Argos/TextFormatter.cpp b/src/Argos/TextFormatter.cpp
index 1cba4c0..6d5ebfe 100644
--- a/src/Argos/TextFormatter.cpp
+++ b/src/Argos/TextFormatter.cpp
@@ -248,8 +248,18 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_writer.is_current_line_empty() && m_state == State::ALIGNMENT)
+        {
+            // Replace the indentation that was made for the preceding tabs
+            // and spaces.
+            const auto column = m_writer.current_width();
+            pop_indentation();
+            m_writer.set_spaces(0);
+            m_writer.set_spaces(column - m_writer.current_width());
+            push_indentation(CURRENT_COLUMN);
+        }
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
-- 
2.43.0


From 18b26e4b61208d40a70186c0e20a8dc97795aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 33/41] fix: bring the fixes to the two-file version

---
 single_src/Argos/Argos.cpp | 474 ++++++++++++++++++++++++++-----------
 1 file changed, 337 insertions(+), 137 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 071cdaa..866dce1 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -361,8 +361,7 @@ namespace argos
         explicit ArgumentCounter(const CommandData& command);
 
         ArgumentCounter(const CommandData& command,
-                        size_t argument_count,
-                        size_t initial_count = 0);
+                        size_t argument_count);
 
         const ArgumentData* next_argument();
 
@@ -370,17 +369,35 @@ namespace argos
 
         [[nodiscard]] bool is_complete() const;
 
+        /**
+         * @brief Returns the least number of values that must be given to
+         *      the current and the following arguments.
+         */
+        [[nodiscard]] size_t min_remaining_count() const;
+
+        /**
+         * @brief Distributes @a n more values among the current and
+         *      the following arguments.
+         */
+        void set_remaining_count(size_t n);
+
         static std::pair<size_t, size_t>
         get_min_max_count(const CommandData& command);
 
         static bool requires_argument_count(const CommandData& command);
 
     private:
+        [[nodiscard]] size_t received_count(size_t index) const;
+
+        [[nodiscard]] size_t min_remaining_count(size_t index) const;
+
         using Counter = std::pair<size_t, const ArgumentData*>;
         std::vector<Counter> m_counters;
         size_t m_index = 0;
         size_t m_first_optional = 0;
         size_t m_counter = 0;
+        // The number of values the argument at m_index has received.
+        size_t m_current_count = 0;
     };
 }
 
@@ -392,6 +409,8 @@ namespace argos
 // License text is included with the source distribution.
 //****************************************************************************
 
+#include <algorithm>
+
 namespace argos
 {
     namespace
@@ -474,27 +493,25 @@ namespace argos
     }
 
     ArgumentCounter::ArgumentCounter(const CommandData& command,
-                                     size_t argument_count,
-                                     size_t initial_count)
+                                     size_t argument_count)
         : m_counters(make_argument_counters(command, argument_count)),
           m_first_optional(m_counters.size())
     {
-        for (size_t i = 0; i < initial_count; ++i)
-        {
-            if (next_argument() == nullptr)
-                break;
-        }
     }
 
     const ArgumentData* ArgumentCounter::next_argument()
     {
         while (m_index != m_counters.size() && m_counters[m_index].first == 0)
+        {
             ++m_index;
+            m_current_count = 0;
+        }
 
         if (m_index == m_counters.size())
             return nullptr;
 
         ++m_counter;
+        ++m_current_count;
         --m_counters[m_index].first;
         return m_counters[m_index].second;
     }
@@ -506,9 +523,46 @@ namespace argos
 
     bool ArgumentCounter::is_complete() const
     {
-        return m_index >= m_first_optional
-               || (m_index + 1 == m_first_optional
-                   && m_counters[m_index].first == 0);
+        for (auto i = m_index; i < m_first_optional; ++i)
+        {
+            if (m_counters[i].first != 0)
+                return false;
+        }
+        return true;
+    }
+
+    size_t ArgumentCounter::min_remaining_count() const
+    {
+        size_t result = 0;
+        for (auto i = m_index; i < m_counters.size(); ++i)
+            result += min_remaining_count(i);
+        return result;
+    }
+
+    void ArgumentCounter::set_remaining_count(size_t n)
+    {
+        const auto lo = min_remaining_count();
+        n -= std::min(n, lo);
+        for (auto i = m_index; i < m_counters.size(); ++i)
+        {
+            auto& [count, arg] = m_counters[i];
+            const auto min_count = min_remaining_count(i);
+            const auto extra = std::min<size_t>(
+                n, arg->max_count - received_count(i) - min_count);
+            count = min_count + extra;
+            n -= extra;
+        }
+    }
+
+    size_t ArgumentCounter::received_count(size_t index) const
+    {
+        return index == m_index ? m_current_count : 0;
+    }
+
+    size_t ArgumentCounter::min_remaining_count(size_t index) const
+    {
+        const size_t min_count = m_counters[index].second->min_count;
+        return min_count - std::min(min_count, received_count(index));
     }
 
     std::pair<size_t, size_t>
@@ -924,6 +978,12 @@ namespace argos
 
         void clear_value(ValueId value_id);
 
+        /**
+         * Returns a string_view referring to a copy of value which doesn't
+         * become one of the parsed values.
+         */
+        std::string_view keep_value(const std::string& value);
+
         [[nodiscard]] ValueId get_value_id(std::string_view value_name) const;
 
         [[nodiscard]] std::optional<std::pair<std::string_view, ArgumentId>>
@@ -965,6 +1025,9 @@ namespace argos
     private:
         /// The values received from ArgumentIteratorImpl.
         std::multimap<ValueId, std::pair<std::string, ArgumentId>> m_values;
+        /// Values that have been replaced or cleared. They are kept because
+        /// there can be string_views that refer to them.
+        std::vector<decltype(m_values)::node_type> m_removed_values;
         /// Index from flag, argument name or alias to ValueId and ArgumentId
         std::vector<std::tuple<std::string_view, ValueId, ArgumentId>> m_ids;
         std::vector<std::string> m_unprocessed_arguments;
@@ -1044,24 +1107,42 @@ namespace argos
 
         IteratorResult process_command(const CommandData* command);
 
+        void set_initial_values();
+
         void copy_remaining_arguments_to_parser_result();
 
-        [[nodiscard]] size_t count_arguments() const;
+        /**
+         * Returns @a result plus the number of arguments that are left for
+         * the current command.
+         */
+        [[nodiscard]] size_t count_arguments(size_t result = 0) const;
 
         bool check_argument_and_option_counts();
 
         [[nodiscard]] std::pair<const CommandData*, size_t>
         find_sibling_command(std::string_view name) const;
 
+        [[nodiscard]] std::pair<const CommandData*, size_t>
+        find_multi_command(std::string_view name) const;
+
         [[nodiscard]]
         std::optional<size_t> find_first_multi_command_parent() const;
 
         void reactivate_multi_command_parent(size_t index);
 
-        void update_arguments(const std::vector<std::string>& args);
+        void update_arguments(const std::vector<std::string>& args,
+                              bool is_last = false);
 
         void error(const std::string& message = {});
 
+        void error(const std::string& message, const CommandData& command);
+
+        /**
+         * Check the mandatory options of the active commands, starting with
+         * the one at first_index.
+         */
+        bool has_all_mandatory_options(size_t first_index);
+
         bool has_all_mandatory_options(const ParsedArgumentsImpl& parsed_args,
                                        const CommandData& command);
 
@@ -1247,8 +1328,6 @@ namespace argos
 // License text is included with the source distribution.
 //****************************************************************************
 
-#include <algorithm>
-
 namespace argos
 {
     namespace
@@ -1287,16 +1366,7 @@ namespace argos
                                    std::move(args))
           }
     {
-        auto& parsed_args = *parsed_arguments();
-        for (const auto& option : m_command->options)
-        {
-            if (!option->initial_value.empty())
-            {
-                parsed_args.append_value(option->value_id,
-                                         option->initial_value,
-                                         option->argument_id);
-            }
-        }
+        set_initial_values();
 
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
@@ -1421,22 +1491,38 @@ namespace argos
             break;
         case OptionOperation::CLEAR:
             parsed_args->clear_value(opt.value_id);
-            break;
+            [[fallthrough]];
         case OptionOperation::NONE:
+            if (opt.argument.empty())
+                break;
+            if (const auto value = m_iterator.next_value())
+            {
+                arg = parsed_args->keep_value(*value);
+            }
+            else
+            {
+                error(flag + ": no value given.");
+                return {OptionResult::ERROR, {}};
+            }
             break;
         }
 
+        if (opt.type == OptionType::LAST_OPTION)
+            m_state = State::ARGUMENTS_ONLY;
+
+        const auto is_last = opt.type != OptionType::NORMAL
+                             && opt.type != OptionType::LAST_OPTION;
         if (opt.callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             opt.callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, is_last);
         }
         if (m_data->parser_settings.option_callback)
         {
             CallbackArguments args(OptionView(&opt), arg, parsed_args);
             m_data->parser_settings.option_callback(args);
-            update_arguments(args.new_arguments);
+            update_arguments(args.new_arguments, is_last);
         }
 
         switch (opt.type)
@@ -1448,17 +1534,18 @@ namespace argos
             [[fallthrough]];
         case OptionType::EXIT:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::EXIT, arg};
         case OptionType::STOP:
             m_state = State::DONE;
-            parsed_args->set_breaking_option(&opt);
+            for (const auto& pa : m_parsed_args)
+                pa->set_breaking_option(&opt);
             return {OptionResult::STOP, arg};
         case OptionType::LAST_ARGUMENT:
             m_state = State::DONE;
             return {OptionResult::LAST_ARGUMENT, arg};
         case OptionType::LAST_OPTION:
-            m_state = State::ARGUMENTS_ONLY;
             return {OptionResult::NORMAL, arg};
         }
         return {};
@@ -1521,6 +1608,8 @@ namespace argos
         const auto& parsed_args = parsed_arguments();
         if (auto [next_cmd, i] = find_sibling_command(value); next_cmd)
         {
+            if (!has_all_mandatory_options(i + 1))
+                return {IteratorResultCode::ERROR, {}, {}};
             reactivate_multi_command_parent(i);
             return process_command(next_cmd);
         }
@@ -1558,6 +1647,8 @@ namespace argos
     {
         m_parsed_args.push_back(parsed_arguments()->add_subcommand(command));
         m_command = command;
+        set_initial_values();
+        m_state = State::ARGUMENTS_AND_OPTIONS;
         if (!ArgumentCounter::requires_argument_count(*m_command))
         {
             m_argument_counter = ArgumentCounter(*m_command);
@@ -1567,10 +1658,24 @@ namespace argos
             m_argument_counter = ArgumentCounter(*m_command,
                                                  count_arguments());
         }
-        m_state = State::ARGUMENTS_AND_OPTIONS;
         return {IteratorResultCode::COMMAND, command, m_iterator.current()};
     }
 
+    // ReSharper disable once CppMemberFunctionMayBeConst
+    void ArgumentIteratorImpl::set_initial_values()
+    {
+        auto& parsed_args = *parsed_arguments();
+        for (const auto& option : m_command->options)
+        {
+            if (!option->initial_value.empty())
+            {
+                parsed_args.append_value(option->value_id,
+                                         option->initial_value,
+                                         option->argument_id);
+            }
+        }
+    }
+
     // ReSharper disable once CppMemberFunctionMayBeConst
     void ArgumentIteratorImpl::copy_remaining_arguments_to_parser_result()
     {
@@ -1579,17 +1684,24 @@ namespace argos
             parsed_args.add_unprocessed_argument(std::string(str));
     }
 
-    size_t ArgumentIteratorImpl::count_arguments() const
+    size_t ArgumentIteratorImpl::count_arguments(size_t result) const
     {
-        size_t result = 0;
         auto it = m_iterator;
         auto [min_count, _] = ArgumentCounter::get_min_max_count(*m_command);
-        for (auto arg = it.next(); arg; arg = it.next())
+        while (m_state == State::ARGUMENTS_AND_OPTIONS)
         {
-            const OptionData* option = m_command->find_option(
-                *arg,
-                m_data->parser_settings.allow_abbreviated_options,
-                m_data->parser_settings.case_insensitive);
+            auto arg = it.next();
+            if (!arg)
+                break;
+
+            const OptionData* option = nullptr;
+            if (is_option(*arg, m_data->parser_settings.option_style))
+            {
+                option = m_command->find_option(
+                    *arg,
+                    m_data->parser_settings.allow_abbreviated_options,
+                    m_data->parser_settings.case_insensitive);
+            }
 
             if (option)
             {
@@ -1603,6 +1715,7 @@ namespace argos
                 case OptionType::HELP:
                 case OptionType::LAST_ARGUMENT:
                 case OptionType::STOP:
+                case OptionType::EXIT:
                     return result;
                 case OptionType::LAST_OPTION:
                     arguments_only = true;
@@ -1619,7 +1732,7 @@ namespace argos
                 if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                     return result;
 
-                if (result >= min_count && find_sibling_command(*arg).first)
+                if (result >= min_count && find_multi_command(*arg).first)
                     return result;
 
                 ++result;
@@ -1631,7 +1744,7 @@ namespace argos
             if (m_command->find_command(*arg, m_data->parser_settings.case_insensitive))
                 return result;
 
-            if (result >= min_count && find_sibling_command(*arg).first)
+            if (result >= min_count && find_multi_command(*arg).first)
                 return result;
 
             ++result;
@@ -1641,10 +1754,11 @@ namespace argos
 
     bool ArgumentIteratorImpl::check_argument_and_option_counts()
     {
-        auto& parsed_args = *parsed_arguments();
-        if (!has_all_mandatory_options(parsed_args, *m_command))
+        if (!has_all_mandatory_options(0))
             return false;
 
+        auto& parsed_args = *parsed_arguments();
+
         if (*m_command->require_subcommand && parsed_args.subcommands().empty())
         {
             error("No command was given.");
@@ -1693,6 +1807,12 @@ namespace argos
         if (!m_argument_counter.is_complete())
             return {nullptr, 0};
 
+        return find_multi_command(name);
+    }
+
+    std::pair<const CommandData*, size_t>
+    ArgumentIteratorImpl::find_multi_command(std::string_view name) const
+    {
         if (auto index = find_first_multi_command_parent())
         {
             return {
@@ -1707,6 +1827,8 @@ namespace argos
 
     void ArgumentIteratorImpl::reactivate_multi_command_parent(size_t index)
     {
+        for (size_t i = index + 1; i < m_parsed_args.size(); ++i)
+            m_parsed_args[i]->set_result_code(ParserResultCode::SUCCESS);
         m_parsed_args.resize(index + 1);
         m_command = m_parsed_args.back()->command();
         m_argument_counter = {};
@@ -1714,7 +1836,7 @@ namespace argos
     }
 
     void ArgumentIteratorImpl::update_arguments(
-        const std::vector<std::string>& args)
+        const std::vector<std::string>& args, bool is_last)
     {
         if (args.empty())
             return;
@@ -1723,16 +1845,30 @@ namespace argos
         if (!ArgumentCounter::requires_argument_count(*m_command))
             return;
 
-        auto current_count = m_argument_counter.count();
-        auto total_count = current_count + count_arguments();
-        m_argument_counter = ArgumentCounter(*m_command, total_count,
-                                             current_count);
+        if (is_last)
+        {
+            m_argument_counter.set_remaining_count(0);
+            return;
+        }
+
+        // The values that have already been assigned to arguments can't be
+        // moved, only the remaining ones can be distributed.
+        const auto min_count = ArgumentCounter::get_min_max_count(*m_command).first
+                               - m_argument_counter.min_remaining_count();
+        m_argument_counter.set_remaining_count(count_arguments(min_count)
+                                               - min_count);
     }
 
     void ArgumentIteratorImpl::error(const std::string& message)
+    {
+        error(message, *m_command);
+    }
+
+    void ArgumentIteratorImpl::error(const std::string& message,
+                                     const CommandData& command)
     {
         if (!message.empty())
-            write_error_message(*m_data, *m_command, message);
+            write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
             exit(m_data->parser_settings.error_exit_code);
@@ -1743,6 +1879,17 @@ namespace argos
         m_state = State::ERROR;
     }
 
+    bool ArgumentIteratorImpl::has_all_mandatory_options(size_t first_index)
+    {
+        for (size_t i = first_index; i < m_parsed_args.size(); ++i)
+        {
+            const auto& parsed_args = *m_parsed_args[i];
+            if (!has_all_mandatory_options(parsed_args, *parsed_args.command()))
+                return false;
+        }
+        return true;
+    }
+
     bool ArgumentIteratorImpl::has_all_mandatory_options(
         const ParsedArgumentsImpl& parsed_args,
         const CommandData& command)
@@ -1754,7 +1901,7 @@ namespace argos
                 auto flags = o->flags.front();
                 for (unsigned i = 1; i < o->flags.size(); ++i)
                     flags += ", " + o->flags[i];
-                error("Mandatory option is missing: " + flags);
+                error("Mandatory option is missing: " + flags, command);
                 return false;
             }
         }
@@ -1784,11 +1931,18 @@ namespace argos
             result->parser_settings = data.parser_settings;
             result->help_settings = data.help_settings;
             result->command = data.command;
+            result->version = data.version;
             return result;
         }
 
         constexpr char DEFAULT_NAME[] = "UNINITIALIZED";
 
+        void set_default_name(ParserData& data, const char* arg0)
+        {
+            if (data.command.name == DEFAULT_NAME && std::strlen(arg0) != 0)
+                data.command.name = get_base_name(arg0);
+        }
+
         ParsedArguments parse_arguments(std::vector<std::string_view> args,
                                         const std::shared_ptr<ParserData>& data)
         {
@@ -1877,23 +2031,23 @@ namespace argos
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
-            return parse(std::vector<std::string_view>());
-
-        if (m_data->command.name == DEFAULT_NAME
-            && std::strlen(argv[0]) != 0)
-        {
-            m_data->command.name = get_base_name(argv[0]);
-        }
+            ARGOS_THROW("argc and argv must at least contain the command name.");
 
+        set_default_name(*m_data, argv[0]);
         return parse(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ParsedArguments ArgumentParser::parse(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
-            return parse(std::vector<std::string_view>());
-        return parse(std::vector<std::string_view>(argv + 1, argv + argc));
+            ARGOS_THROW("argc and argv must at least contain the command name.");
+
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return parse_arguments({argv + 1, argv + argc}, std::move(data));
     }
 
     ParsedArguments ArgumentParser::parse(std::vector<std::string_view> args)
@@ -1910,16 +2064,23 @@ namespace argos
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv)
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
+
+        set_default_name(*m_data, argv[0]);
         return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
     }
 
     ArgumentIterator ArgumentParser::make_iterator(int argc, char** argv) const
     {
+        check_data();
         if (argc <= 0)
             ARGOS_THROW("argc and argv must at least contain the command name.");
-        return make_iterator(std::vector<std::string_view>(argv + 1, argv + argc));
+
+        auto data = make_copy(*m_data);
+        set_default_name(*data, argv[0]);
+        return make_argument_iterator({argv + 1, argv + argc}, std::move(data));
     }
 
     ArgumentIterator
@@ -2641,7 +2802,10 @@ namespace argos
         if (m_values.empty())
             return {{}, m_args, m_value_id, {}};
 
-        const auto& [value, arg_id] = m_values.at(index);
+        if (index >= m_values.size())
+            error("There is no value with index " + std::to_string(index) + ".");
+
+        const auto& [value, arg_id] = m_values[index];
         return {value, m_args, m_value_id, arg_id};
     }
 
@@ -2982,7 +3146,7 @@ namespace argos
     Command& Command::copy_from(Command& command)
     {
         check_command();
-        data_->copy_from(*command.data_);
+        data_->copy_from(command.internal_ref());
         return *this;
     }
 
@@ -3023,6 +3187,7 @@ namespace argos
           name(rhs.name),
           full_name(rhs.full_name),
           texts(rhs.texts),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(rhs.section),
@@ -3048,6 +3213,7 @@ namespace argos
           name(std::move(rhs.name)),
           full_name(std::move(rhs.full_name)),
           texts(std::move(rhs.texts)),
+          visibility(rhs.visibility),
           require_subcommand(rhs.require_subcommand),
           multi_command(rhs.multi_command),
           section(std::move(rhs.section)),
@@ -3066,6 +3232,7 @@ namespace argos
         name = rhs.name;
         full_name = rhs.full_name;
         texts = rhs.texts;
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = rhs.section;
@@ -3102,6 +3269,7 @@ namespace argos
         arguments = std::move(rhs.arguments);
         options = std::move(rhs.options);
         commands = std::move(rhs.commands);
+        visibility = rhs.visibility;
         require_subcommand = rhs.require_subcommand;
         multi_command = rhs.multi_command;
         section = std::move(rhs.section);
@@ -3149,6 +3317,19 @@ namespace argos
 
     void CommandData::copy_from(const CommandData& cmd)
     {
+        if (&cmd == this)
+        {
+            // The containers can't be extended while they're traversed.
+            copy_from(CommandData(cmd));
+            return;
+        }
+
+        if ((!arguments.empty() || !cmd.arguments.empty())
+            && (!commands.empty() || !cmd.commands.empty()))
+        {
+            ARGOS_THROW("A command cannot have both arguments and subcommands.");
+        }
+
         for (const auto& a : cmd.arguments)
             arguments.push_back(std::make_unique<ArgumentData>(*a));
 
@@ -3309,7 +3490,7 @@ namespace argos
             case OptionStyle::DASH:
                 if (!has_flag(cmd, "-h", settings))
                     flags.emplace_back("-h");
-                else if (!has_flag(cmd, "-help", settings))
+                if (!has_flag(cmd, "-help", settings))
                     flags.emplace_back("-help");
                 break;
             }
@@ -3329,9 +3510,10 @@ namespace argos
                          ValueId value_id_offset,
                          ArgumentId argument_id_offset)
         {
+            // Gives names that refer to the same value the same id.
             struct InternalIdMaker
             {
-                std::map<std::string_view, ValueId> explicit_ids;
+                std::map<std::string_view, ValueId> ids;
                 int id;
 
                 explicit InternalIdMaker(ValueId start_id)
@@ -3339,34 +3521,32 @@ namespace argos
                 {
                 }
 
-                std::optional<ValueId> find_value_id(std::string_view name)
+                void link(const std::vector<std::string_view>& names)
                 {
-                    const auto it = explicit_ids.find(name);
-                    if (it == explicit_ids.end())
-                        return {};
-                    return it->second;
-                }
-
-                ValueId get_value_id(std::string_view name)
-                {
-                    if (const auto value_id = find_value_id(name))
-                        return *value_id;
-                    id++;
-                    explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
+                    std::optional<ValueId> value_id;
+                    for (const auto& name : names)
+                    {
+                        const auto it = ids.find(name);
+                        if (it == ids.end())
+                            continue;
+                        if (!value_id)
+                            value_id = it->second;
+                        else if (*value_id != it->second)
+                            replace(it->second, *value_id);
+                    }
+                    if (!value_id)
+                        value_id = ValueId(++id);
+                    for (const auto& name : names)
+                        ids.emplace(name, *value_id);
                 }
 
-                ValueId get_value_id(const std::vector<std::string>& names)
+                void replace(ValueId old_id, ValueId new_id)
                 {
-                    for (const auto& name : names)
+                    for (auto& [_, value_id] : ids)
                     {
-                        if (const auto value_id = find_value_id(name))
-                            return *value_id;
+                        if (value_id == old_id)
+                            value_id = new_id;
                     }
-                    id++;
-                    for (const auto& name : names)
-                        explicit_ids.emplace(name, ValueId(id));
-                    return ValueId(id);
                 }
             };
 
@@ -3374,32 +3554,32 @@ namespace argos
             InternalIdMaker id_maker(value_id_offset);
             for (const auto& a : cmd.arguments)
             {
-                a->argument_id = ArgumentId(++argument_id);
+                std::vector<std::string_view> names{a->name};
                 if (!a->alias.empty())
-                {
-                    a->value_id = id_maker.get_value_id(a->alias);
-                    id_maker.explicit_ids.emplace(a->name, a->value_id);
-                }
-                else
-                {
-                    a->value_id = id_maker.get_value_id(a->name);
-                }
+                    names.emplace_back(a->alias);
+                id_maker.link(names);
             }
             for (const auto& o : cmd.options)
             {
-                o->argument_id = ArgumentId(++argument_id);
                 if (o->operation == OptionOperation::NONE)
                     continue;
+                std::vector<std::string_view> names(o->flags.begin(),
+                                                    o->flags.end());
                 if (!o->alias.empty())
-                {
-                    o->value_id = id_maker.get_value_id(o->alias);
-                    for (auto& f : o->flags)
-                        id_maker.explicit_ids.emplace(f, o->value_id);
-                }
-                else
-                {
-                    o->value_id = id_maker.get_value_id(o->flags);
-                }
+                    names.emplace_back(o->alias);
+                id_maker.link(names);
+            }
+
+            for (const auto& a : cmd.arguments)
+            {
+                a->argument_id = ArgumentId(++argument_id);
+                a->value_id = id_maker.ids.at(a->name);
+            }
+            for (const auto& o : cmd.options)
+            {
+                o->argument_id = ArgumentId(++argument_id);
+                if (o->operation != OptionOperation::NONE)
+                    o->value_id = id_maker.ids.at(o->flags.front());
             }
 
             return {ValueId(id_maker.id), ArgumentId(argument_id)};
@@ -3441,7 +3621,7 @@ namespace argos
         cmd.build_option_index(data.parser_settings.case_insensitive);
         for (auto& c : cmd.commands)
         {
-            c->full_name = cmd.name + ' ' + c->name;
+            c->full_name = cmd.full_name + ' ' + c->name;
             finish_initialization(*c, data, start_id, argument_id);
         }
     }
@@ -3463,7 +3643,7 @@ namespace argos
 
     std::string CommandView::help() const
     {
-        auto it = m_command->texts.find(TextId::ABOUT);
+        auto it = m_command->texts.find(TextId::HELP);
         return it != m_command->texts.end() ? get_text(it->second) : "";
     }
 
@@ -4522,7 +4702,7 @@ namespace argos
             return {};
         }
 
-        m_pos = m_args[0].size();
+        m_pos = std::string_view::npos;
         return std::string(m_args[0]);
     }
 
@@ -4863,7 +5043,7 @@ namespace argos
     ArgumentValue ParsedArguments::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
@@ -5105,7 +5285,7 @@ namespace argos
     ParsedArgumentsBuilder::value(const IArgumentView& arg) const
     {
         if (auto value = m_impl->get_value(arg.value_id()))
-            return {value->first, m_impl, arg.value_id(), arg.argument_id()};
+            return {value->first, m_impl, arg.value_id(), value->second};
         else
             return {{}, m_impl, arg.value_id(), arg.argument_id()};
     }
@@ -5245,15 +5425,8 @@ namespace argos
                                       const std::string& value,
                                       ArgumentId argument_id)
     {
-        auto it = m_values.lower_bound(value_id);
-        if (it == m_values.end() || it->first != value_id)
-            return append_value(value_id, value, argument_id);
-
-        it->second = {value, argument_id};
-        auto nxt = next(it);
-        while (nxt != m_values.end() && nxt->first == value_id)
-            m_values.erase(nxt++);
-        return it->second.first;
+        clear_value(value_id);
+        return append_value(value_id, value, argument_id);
     }
 
     std::string_view
@@ -5266,7 +5439,19 @@ namespace argos
 
     void ParsedArgumentsImpl::clear_value(ValueId value_id)
     {
-        m_values.erase(value_id);
+        // Callbacks and ArgumentIterator may still have string_views that refer
+        // to the old values.
+        auto [first, last] = m_values.equal_range(value_id);
+        while (first != last)
+            m_removed_values.push_back(m_values.extract(first++));
+    }
+
+    std::string_view ParsedArgumentsImpl::keep_value(const std::string& value)
+    {
+        decltype(m_values) values;
+        values.insert({ValueId(), {value, ArgumentId()}});
+        m_removed_values.push_back(values.extract(values.begin()));
+        return m_removed_values.back().mapped().first;
     }
 
     ValueId
@@ -5656,11 +5841,13 @@ namespace argos
     {
         if (c1 == c2)
             return 0;
-        const auto ic1 = int(uint8_t(c1) & 0xDFu);
-        if (ic1 < 'A' || 'Z' < ic1)
-            return c1 - c2;
-        const auto ic2 = int(uint8_t(c2) & 0xDFu);
-        return ic1 - ic2;
+        // Only letters can be folded, applying the mask to other characters
+        // makes the result inconsistent, i.e. not a strict weak ordering.
+        const auto fold = [](int c)
+        {
+            return 'A' <= c && c <= 'Z' ? c - 'A' + 'a' : c;
+        };
+        return fold(c1) - fold(c2);
     }
 
     bool is_less_ci(std::string_view str1, std::string_view str2)
@@ -5820,6 +6007,7 @@ namespace argos
 // This file is distributed under the Zero-Clause BSD License.
 // License text is included with the source distribution.
 //****************************************************************************
+#include <cctype>
 
 namespace argos
 {
@@ -5832,7 +6020,7 @@ namespace argos
             if (pos == std::string_view::npos)
                 return {text, {}};
             if (text[pos] == '\n'
-                || (pos + 1 != text.size() && text[pos + 1] != '\n'))
+                || pos + 1 == text.size() || text[pos + 1] != '\n')
             {
                 return {text.substr(0, pos), text.substr(pos + 1)};
             }
@@ -5876,7 +6064,7 @@ namespace argos
             if (str.size() > 1 && str.back() == '.')
             {
                 return std::all_of(str.begin(), str.end() - 1,
-                                   [](auto c) {return std::isdigit(c);});
+                                   [](auto c) {return std::isdigit(static_cast<unsigned char>(c));});
             }
 
             return false;
@@ -5917,13 +6105,14 @@ namespace argos
 
     void TextFormatter::push_indentation(unsigned indent)
     {
-        if (indent == CURRENT_COLUMN)
-        {
+        const bool current_column = indent == CURRENT_COLUMN;
+        if (current_column)
             indent = m_writer.current_width();
+        if (!m_writer.set_indentation(indent))
+            indent = m_writer.indentation();
+        else if (current_column)
             m_writer.set_spaces(0);
-        }
         m_indents.push_back(indent);
-        m_writer.set_indentation(indent);
     }
 
     void TextFormatter::pop_indentation()
@@ -6056,8 +6245,18 @@ namespace argos
 
     void TextFormatter::begin_alignment()
     {
-        if (m_writer.is_current_line_empty()
-            || m_state == State::UNALIGNED_MARKER)
+        if (m_writer.is_current_line_empty() && m_state == State::ALIGNMENT)
+        {
+            // Replace the indentation that was made for the preceding tabs
+            // and spaces.
+            const auto column = m_writer.current_width();
+            pop_indentation();
+            m_writer.set_spaces(0);
+            m_writer.set_spaces(column - m_writer.current_width());
+            push_indentation(CURRENT_COLUMN);
+        }
+        else if (m_writer.is_current_line_empty()
+                 || m_state == State::UNALIGNED_MARKER)
         {
             push_indentation(CURRENT_COLUMN);
             m_state = State::ALIGNMENT;
@@ -6083,10 +6282,8 @@ namespace argos
     void TextFormatter::end_alignment()
     {
         if (m_state == State::ALIGNMENT || m_state == State::ALIGNED_MARKER)
-        {
             pop_indentation();
-            m_state = State::NO_ALIGNMENT;
-        }
+        m_state = State::NO_ALIGNMENT;
     }
 }
 
@@ -6268,6 +6465,9 @@ namespace argos
             {
                 if (split.index < start_index + 1)
                     continue;
+                // Don't separate the word from the punctuation after it.
+                if (split.index == key.size() && key.size() != word.size())
+                    break;
                 length += count_code_points(word.substr(prev.index, split.index - prev.index));
                 if (length + (split.separator ? 1 : 0) > max_length)
                     break;
-- 
2.43.0


From 71108de7b9ba7e6c0e5bb05eca94d35ffa8cb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:04 +0000
Subject: [PATCH 34/41] fix: table prints to stdout by default

---
 examples/table/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/table/table.cpp b/examples/table/table.cpp
index c17c0ad..3da06de 100644
--- a/examples/table/table.cpp
+++ b/examples/table/table.cpp
@@ -63,7 +63,7 @@ int main(int argc, char* argv[])
     std::ofstream file;
     if (auto output = args.value("--output"))
         file.open(output.as_string());
-    std::ostream& stream = file ? file : std::cout;
+    std::ostream& stream = file.is_open() ? file : std::cout;
 
     // Print the table.
     auto it = cells.begin();
-- 
2.43.0


From 13022fec3a778e7929b1874214aa21c3e788504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:04 +0000
Subject: [PATCH 35/41] fix: rot13 accepts negative and large numbers

---
 examples/rot13/rot13.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/rot13/rot13.cpp b/examples/rot13/rot13.cpp
index d8ae292..a7c476b 100644
--- a/examples/rot13/rot13.cpp
+++ b/examples/rot13/rot13.cpp
@@ -43,6 +43,9 @@ int main(int argc, char* argv[])
     if (verbose)
         std::cout << "n = " << n << "\n";
 
+    // Make the rotation a number from 0 to 25.
+    const int rotation = (n % 26 + 26) % 26;
+
     bool first = true;
     for (const auto& word : words)
     {
@@ -50,7 +53,7 @@ int main(int argc, char* argv[])
             first = false;
         else
             std::cout << ' ';
-        rotate_and_print(word, n);
+        rotate_and_print(word, rotation);
     }
     std::cout << std::endl;
 
-- 
2.43.0


From 401fd7332f59ebc659233e3c0b744d43d81d9bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:04 +0000
Subject: [PATCH 36/41] fix: commands --version doesn't use a missing
 subcommand

---
 examples/commands/commands.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/examples/commands/commands.cpp b/examples/commands/commands.cpp
index e5d1cb0..e4a0d83 100644
--- a/examples/commands/commands.cpp
+++ b/examples/commands/commands.cpp
@@ -32,6 +32,10 @@ int main(int argc, char* argv[])
                     .help("The number of times to repeat the congratulation.")))
             .parse(argc, argv);
 
+        // There's no subcommand if --version was given.
+        if (args.subcommands().empty())
+            return 0;
+
         const auto subcommand = args.subcommands()[0];
         std::string a;
         if (subcommand.name() == "greet")
-- 
2.43.0


From 33bc9e5ff98135fe3348a3ca229150414af030cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:28 +0000
Subject: [PATCH 37/41] fix: messages to buffered streams are no longer lost
 when the program is ended

---
 src/Argos/ArgumentIteratorImpl.cpp | 4 ++--
 src/Argos/ParsedArgumentsImpl.cpp  | 4 ++--
 src/Argos/ParserData.cpp           | 8 ++++++++
 src/Argos/ParserData.hpp           | 4 ++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/Argos/ArgumentIteratorImpl.cpp b/src/Argos/ArgumentIteratorImpl.cpp
index 6547fc0..6f5976d 100644
--- a/src/Argos/ArgumentIteratorImpl.cpp
+++ b/src/Argos/ArgumentIteratorImpl.cpp
@@ -250,7 +250,7 @@ namespace argos
             {
             case OptionResult::EXIT:
                 if (m_data->parser_settings.auto_exit)
-                    exit(m_data->parser_settings.normal_exit_code);
+                    exit_process(*m_data, m_data->parser_settings.normal_exit_code);
                 copy_remaining_arguments_to_parser_result();
                 return {IteratorResultCode::OPTION, option, arg};
             case OptionResult::ERROR:
@@ -556,7 +556,7 @@ namespace argos
             write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
-            exit(m_data->parser_settings.error_exit_code);
+            exit_process(*m_data, m_data->parser_settings.error_exit_code);
 
         copy_remaining_arguments_to_parser_result();
         for (const auto& parsed_args : m_parsed_args)
diff --git a/src/Argos/ParsedArgumentsImpl.cpp b/src/Argos/ParsedArgumentsImpl.cpp
index a40b09d..f5532d3 100644
--- a/src/Argos/ParsedArgumentsImpl.cpp
+++ b/src/Argos/ParsedArgumentsImpl.cpp
@@ -237,7 +237,7 @@ namespace argos
     {
         write_error_message(*m_data, *m_command, message);
         if (m_data->parser_settings.auto_exit)
-            exit(m_data->parser_settings.error_exit_code);
+            exit_process(*m_data, m_data->parser_settings.error_exit_code);
         else
             ARGOS_THROW("Error while parsing arguments.");
     }
@@ -247,7 +247,7 @@ namespace argos
     {
         write_error_message(*m_data, *m_command, message, argument_id);
         if (m_data->parser_settings.auto_exit)
-            exit(m_data->parser_settings.error_exit_code);
+            exit_process(*m_data, m_data->parser_settings.error_exit_code);
         else
             ARGOS_THROW("Error while parsing arguments.");
     }
diff --git a/src/Argos/ParserData.cpp b/src/Argos/ParserData.cpp
index d60cd5b..e6fae2b 100644
--- a/src/Argos/ParserData.cpp
+++ b/src/Argos/ParserData.cpp
@@ -8,6 +8,7 @@
 #include "ParserData.hpp"
 #include "Argos/Option.hpp"
 
+#include <cstdlib>
 #include <iostream>
 
 namespace argos
@@ -62,4 +63,11 @@ namespace argos
         add_version_option(data);
         finish_initialization(data.command, data);
     }
+
+    void exit_process(const ParserData& data, int exit_code)
+    {
+        if (auto* stream = data.help_settings.output_stream)
+            stream->flush();
+        std::exit(exit_code);
+    }
 }
diff --git a/src/Argos/ParserData.hpp b/src/Argos/ParserData.hpp
index da88e7f..e007728 100644
--- a/src/Argos/ParserData.hpp
+++ b/src/Argos/ParserData.hpp
@@ -56,4 +56,8 @@ namespace argos
     };
 
     void finish_initialization(ParserData& data);
+
+    /// Ends the process after flushing the output stream: it may be a local
+    /// object, and those aren't destroyed by exit().
+    [[noreturn]] void exit_process(const ParserData& data, int exit_code);
 }
-- 
2.43.0


From 20c14e6fedc350d3d51207e5901c2aad134075fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:28 +0000
Subject: [PATCH 38/41] fix: bring the repaired exits to the two-file version

---
 single_src/Argos/Argos.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/single_src/Argos/Argos.cpp b/single_src/Argos/Argos.cpp
index 866dce1..e8d77c2 100644
--- a/single_src/Argos/Argos.cpp
+++ b/single_src/Argos/Argos.cpp
@@ -810,6 +810,10 @@ namespace argos
     };
 
     void finish_initialization(ParserData& data);
+
+    /// Ends the process after flushing the output stream: it may be a local
+    /// object, and those aren't destroyed by exit().
+    [[noreturn]] void exit_process(const ParserData& data, int exit_code);
 }
 
 //****************************************************************************
@@ -1565,7 +1569,7 @@ namespace argos
             {
             case OptionResult::EXIT:
                 if (m_data->parser_settings.auto_exit)
-                    exit(m_data->parser_settings.normal_exit_code);
+                    exit_process(*m_data, m_data->parser_settings.normal_exit_code);
                 copy_remaining_arguments_to_parser_result();
                 return {IteratorResultCode::OPTION, option, arg};
             case OptionResult::ERROR:
@@ -1871,7 +1875,7 @@ namespace argos
             write_error_message(*m_data, command, message);
 
         if (m_data->parser_settings.auto_exit)
-            exit(m_data->parser_settings.error_exit_code);
+            exit_process(*m_data, m_data->parser_settings.error_exit_code);
 
         copy_remaining_arguments_to_parser_result();
         for (const auto& parsed_args : m_parsed_args)
@@ -5571,7 +5575,7 @@ namespace argos
     {
         write_error_message(*m_data, *m_command, message);
         if (m_data->parser_settings.auto_exit)
-            exit(m_data->parser_settings.error_exit_code);
+            exit_process(*m_data, m_data->parser_settings.error_exit_code);
         else
             ARGOS_THROW("Error while parsing arguments.");
     }
@@ -5581,7 +5585,7 @@ namespace argos
     {
         write_error_message(*m_data, *m_command, message, argument_id);
         if (m_data->parser_settings.auto_exit)
-            exit(m_data->parser_settings.error_exit_code);
+            exit_process(*m_data, m_data->parser_settings.error_exit_code);
         else
             ARGOS_THROW("Error while parsing arguments.");
     }
@@ -5647,6 +5651,13 @@ namespace argos
         add_version_option(data);
         finish_initialization(data.command, data);
     }
+
+    void exit_process(const ParserData& data, int exit_code)
+    {
+        if (auto* stream = data.help_settings.output_stream)
+            stream->flush();
+        std::exit(exit_code);
+    }
 }
 
 //****************************************************************************
-- 
2.43.0


From 2e0864b822b904de3348d370a598c260f4c5b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:31 +0000
Subject: [PATCH 39/41] Revert "fix: commands --version doesn't use a missing
 subcommand"

This reverts commit 401fd7332f59ebc659233e3c0b744d43d81d9bb7.
---
 examples/commands/commands.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/examples/commands/commands.cpp b/examples/commands/commands.cpp
index e4a0d83..e5d1cb0 100644
--- a/examples/commands/commands.cpp
+++ b/examples/commands/commands.cpp
@@ -32,10 +32,6 @@ int main(int argc, char* argv[])
                     .help("The number of times to repeat the congratulation.")))
             .parse(argc, argv);
 
-        // There's no subcommand if --version was given.
-        if (args.subcommands().empty())
-            return 0;
-
         const auto subcommand = args.subcommands()[0];
         std::string a;
         if (subcommand.name() == "greet")
-- 
2.43.0


From adcf84781bb7b2cb8284dd2802f9fecdffa9c6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:31 +0000
Subject: [PATCH 40/41] Revert "fix: rot13 accepts negative and large numbers"

This reverts commit 13022fec3a778e7929b1874214aa21c3e788504a.
---
 examples/rot13/rot13.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/examples/rot13/rot13.cpp b/examples/rot13/rot13.cpp
index a7c476b..d8ae292 100644
--- a/examples/rot13/rot13.cpp
+++ b/examples/rot13/rot13.cpp
@@ -43,9 +43,6 @@ int main(int argc, char* argv[])
     if (verbose)
         std::cout << "n = " << n << "\n";
 
-    // Make the rotation a number from 0 to 25.
-    const int rotation = (n % 26 + 26) % 26;
-
     bool first = true;
     for (const auto& word : words)
     {
@@ -53,7 +50,7 @@ int main(int argc, char* argv[])
             first = false;
         else
             std::cout << ' ';
-        rotate_and_print(word, rotation);
+        rotate_and_print(word, n);
     }
     std::cout << std::endl;
 
-- 
2.43.0


From 1be1637bb3ff0a4080324a4106f6363d7434fadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:31 +0000
Subject: [PATCH 41/41] Revert "fix: table prints to stdout by default"

This reverts commit 71108de7b9ba7e6c0e5bb05eca94d35ffa8cb980.
---
 examples/table/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/table/table.cpp b/examples/table/table.cpp
index 3da06de..c17c0ad 100644
--- a/examples/table/table.cpp
+++ b/examples/table/table.cpp
@@ -63,7 +63,7 @@ int main(int argc, char* argv[])
     std::ofstream file;
     if (auto output = args.value("--output"))
         file.open(output.as_string());
-    std::ostream& stream = file.is_open() ? file : std::cout;
+    std::ostream& stream = file ? file : std::cout;
 
     // Print the table.
     auto it = cells.begin();
-- 
2.43.0

