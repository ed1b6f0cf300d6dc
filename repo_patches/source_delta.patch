From a8c86cd64d782c3ed412e8c3e5218620727a4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 01/45] fix: short flags are not searched for behind the
 end-of-options marker

A token such as '-foo' following '--' is a positional argument, but the search
for short flags considered all arguments: it set flag 'f' and removed the
character from the positional value.
---
 include/sharg/detail/format_parse.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index b2b0feb..01f61c0 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -258,8 +258,11 @@ private:
     bool flag_is_set(char const short_id)
     {
         // short flags need special attention, since they could be grouped (-rGv <=> -r -G -v)
-        for (std::string & arg : arguments)
+        // Everything behind the end-of-options marker (`--`) is positional and must not be touched.
+        for (auto it = arguments.begin(); it != end_of_options_it; ++it)
         {
+            std::string & arg = *it;
+
             if (arg[0] == '-' && arg.size() > 1 && arg[1] != '-') // is option && not dash && no long option
             {
                 auto pos = arg.find(short_id);
-- 
2.43.0


From 46300edbbeae7b4c94b519353f8db0c46977313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:01 +0000
Subject: [PATCH 02/45] fix: arguments behind the end-of-options marker are
 never special options

'app -- --help', 'app -- --version-check 1', ... request positional arguments
but printed the help page or swallowed the arguments.
---
 include/sharg/parser.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 7f996ae..d231b0d 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -865,9 +865,22 @@ private:
             return false;
         };
 
+        // Set when the end-of-options marker (`--`) was encountered.
+        bool options_ended{false};
+
         // Process the arguments.
         for (; read_next_arg();)
         {
+            // Arguments behind `--` are never (special) options.
+            if (options_ended)
+            {
+                if (found_subcommand())
+                    break;
+
+                format_arguments.emplace_back(arg);
+                continue;
+            }
+
             // The argument is a known option.
             if (options.contains(std::string{arg}))
             {
@@ -890,7 +903,12 @@ private:
             if (found_subcommand())
                 break;
 
-            if (arg == "-h" || arg == "--help")
+            if (arg == option_end_identifier)
+            {
+                options_ended = true;
+                format_arguments.emplace_back(arg);
+            }
+            else if (arg == "-h" || arg == "--help")
             {
                 format = detail::format_help{subcommands, version_check_dev_decision, false};
             }
-- 
2.43.0


From 5a3cceca4db548197a7af4a019dec1639f4384c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:44 +0000
Subject: [PATCH 03/45] fix: list options given by their short and long
 identifier keep all values

'-s 1 --season 3 -s 7' stored only 3, because retrieving the values of the long
identifier cleared the values found for the short one.
---
 include/sharg/detail/format_parse.hpp | 63 ++++++++++++++++++---------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 01f61c0..2779cbc 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -568,28 +568,40 @@ private:
 
     /*!\brief Handles value retrieval (container type) options.
      *
-     * \param[out] value Stores all values found in arguments, parsed by parse_option_value.
-     * \param[in]  id    The option identifier supplied on the command line.
+     * \param[out] value    Stores all values found in arguments, parsed by parse_option_value.
+     * \param[in]  short_id The short option identifier supplied on the command line.
+     * \param[in]  long_id  The long option identifier supplied on the command line.
      *
      * \details
      *
      * Since option_type is a container, the option is a list and can be parsed
-     * multiple times.
+     * multiple times. Short and long identifiers may be mixed; the values are stored in the order in which they
+     * are given on the command line.
      *
      */
-    template <detail::is_container_option option_type, typename id_type>
-    bool get_option_by_id(option_type & value, id_type const & id)
+    template <detail::is_container_option option_type>
+    bool get_list_option(option_type & value, char const short_id, std::string const & long_id)
     {
-        auto it = find_option_id(arguments.begin(), end_of_options_it, id);
-        bool seen_at_least_once{it != end_of_options_it};
-
-        if (seen_at_least_once)
-            value.clear();
+        bool seen_at_least_once{false};
 
-        while (it != end_of_options_it)
+        for (auto it = arguments.begin();;)
         {
-            identify_and_retrieve_option_value(value, it, id);
-            it = find_option_id(it, end_of_options_it, id);
+            auto short_it = find_option_id(it, end_of_options_it, short_id);
+            auto long_it = find_option_id(it, end_of_options_it, long_id);
+            it = std::min(short_it, long_it);
+
+            if (it == end_of_options_it)
+                break;
+
+            if (!seen_at_least_once)
+                value.clear();
+
+            seen_at_least_once = true;
+
+            if (it == short_it)
+                identify_and_retrieve_option_value(value, it, short_id);
+            else
+                identify_and_retrieve_option_value(value, it, long_id);
         }
 
         return seen_at_least_once;
@@ -680,15 +692,26 @@ private:
     template <typename option_type, typename validator_t>
     void get_option(option_type & value, config<validator_t> const & config)
     {
-        bool short_id_is_set{get_option_by_id(value, config.short_id)};
-        bool long_id_is_set{get_option_by_id(value, config.long_id)};
+        bool option_is_set{};
+
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            option_is_set = get_list_option(value, config.short_id, config.long_id);
+        }
+        else
+        {
+            bool short_id_is_set{get_option_by_id(value, config.short_id)};
+            bool long_id_is_set{get_option_by_id(value, config.long_id)};
 
-        // if value is no container we need to check for multiple declarations
-        if (short_id_is_set && long_id_is_set && !detail::is_container_option<option_type>)
-            throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
-                                                 + " is no list/container but specified multiple times");
+            // if value is no container we need to check for multiple declarations
+            if (short_id_is_set && long_id_is_set)
+                throw option_declared_multiple_times("Option " + combine_option_names(config.short_id, config.long_id)
+                                                     + " is no list/container but specified multiple times");
+
+            option_is_set = short_id_is_set || long_id_is_set;
+        }
 
-        if (short_id_is_set || long_id_is_set)
+        if (option_is_set)
         {
             try
             {
-- 
2.43.0


From a8619cb00dab2cd49d088b23b5934f748de679ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:44 +0000
Subject: [PATCH 04/45] fix: values of list options that are out of range are
 rejected

'-i 99999999999' for a std::vector<int> triggered an assertion in debug mode and
was silently ignored in release mode.
---
 include/sharg/detail/format_parse.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 2779cbc..5b7bfb2 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -461,7 +461,12 @@ private:
                                    + get_type_name_as_string(option_type{}) + "."};
         }
 
-        if constexpr (std::is_arithmetic_v<option_type>)
+        if constexpr (detail::is_container_option<option_type>)
+        {
+            // The elements of a list option are parsed one by one.
+            throw_on_input_error<typename option_type::value_type>(res, option_name, input_value);
+        }
+        else if constexpr (std::is_arithmetic_v<option_type>)
         {
             if (res == option_parse_result::overflow_error)
             {
-- 
2.43.0


From 8a64b44101dbb43970e6e89884019967df6f96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:44 +0000
Subject: [PATCH 05/45] fix: std::filesystem::path options take the argument
 verbatim

The stream operator of std::filesystem::path interprets quotes and stops at
whitespace. Paths that contain whitespace could not be given at all.
---
 include/sharg/detail/format_parse.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index 5b7bfb2..c8df83c 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -355,6 +355,13 @@ private:
         value = in;
         return option_parse_result::success;
     }
+
+    // The stream operator of std::filesystem::path expects quoted input and would stop at whitespace.
+    option_parse_result parse_option_value(std::filesystem::path & value, std::string const & in)
+    {
+        value = in;
+        return option_parse_result::success;
+    }
     //!\endcond
 
     /*!\brief Parses the given option value and appends it to the target container.
-- 
2.43.0


From 72ea7f461c23547900c1b6f951b8e09164d6af4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 06/45] fix: a synopsis without whitespace can be printed

std::string::insert threw std::out_of_range on every help page of an application
whose synopsis consists only of its name.
---
 include/sharg/detail/format_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_base.hpp b/include/sharg/detail/format_base.hpp
index 8689b44..d2a37c2 100644
--- a/include/sharg/detail/format_base.hpp
+++ b/include/sharg/detail/format_base.hpp
@@ -527,7 +527,7 @@ protected:
         {
             std::string text = "\\fB";
             text.append(meta.synopsis[i]);
-            text.insert(text.find_first_of(" \t"), "\\fP");
+            text.insert(std::min(text.find_first_of(" \t"), text.size()), "\\fP");
 
             derived_t().print_line(text, false);
         }
-- 
2.43.0


From 0e91cbec63a00a37c5979994b4b04b26a0eabbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 07/45] fix: a trailing backslash in a help text does not read
 past its end

A word that ends with a backslash, e.g. a Windows path or a single backslash in
a description, triggered an assertion or undefined behaviour.
---
 include/sharg/detail/format_help.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7f6d80c..83cac48 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -227,7 +227,12 @@ protected:
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(it != str.end());
+                if (it == str.end()) // A trailing backslash does not introduce an escape sequence.
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -235,7 +240,12 @@ protected:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(it != str.end());
+                    if (it == str.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         if (stdout_is_terminal())
-- 
2.43.0


From b1e77dab2a3b97c2cf506fa7d0754571f292d351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:29 +0000
Subject: [PATCH 08/45] fix: texts are escaped in the HTML help page

to_html computed the escaped text but printed the unescaped one, so that '<',
'&', ... in any text broke the page. Also do not read past the end of a text that
ends with a backslash, and always close the tags opened by a text.
---
 include/sharg/detail/format_html.hpp | 34 ++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/sharg/detail/format_html.hpp b/include/sharg/detail/format_html.hpp
index cfa93e4..fc2f97d 100644
--- a/include/sharg/detail/format_html.hpp
+++ b/include/sharg/detail/format_html.hpp
@@ -176,13 +176,18 @@ private:
         std::string result;
         std::vector<std::string> open_tags; // acts as a stack of html tags
 
-        for (auto it = input.begin(); it != input.end(); ++it)
+        for (auto it = buffer.begin(); it != buffer.end(); ++it)
         {
             if (*it == '\\')
             {
                 // Handle escape sequence, we interpret only "\-", "\fI", and "\fB".
                 ++it;
-                assert(!(it == input.end()));
+                if (it == buffer.end()) // A trailing backslash does not introduce an escape sequence.
+                {
+                    result.push_back('\\');
+                    break;
+                }
+
                 if (*it == '-')
                 {
                     result.push_back(*it);
@@ -190,7 +195,12 @@ private:
                 else if (*it == 'f')
                 {
                     ++it;
-                    assert(!(it == input.end()));
+                    if (it == buffer.end())
+                    {
+                        result.append("\\f");
+                        break;
+                    }
+
                     if (*it == 'I')
                     {
                         open_tags.push_back("em");
@@ -203,11 +213,13 @@ private:
                     }
                     else if (*it == 'P')
                     {
-                        assert(!open_tags.empty());
-                        result.append("</");
-                        result.append(open_tags.back());
-                        result.append(">");
-                        open_tags.pop_back();
+                        if (!open_tags.empty()) // Without an open tag, there is nothing to reset.
+                        {
+                            result.append("</");
+                            result.append(open_tags.back());
+                            result.append(">");
+                            open_tags.pop_back();
+                        }
                     }
                     else
                     {
@@ -227,6 +239,10 @@ private:
             }
         }
 
+        // Close tags that were not closed by the text.
+        for (; !open_tags.empty(); open_tags.pop_back())
+            result.append("</").append(open_tags.back()).append(">");
+
         return result;
     }
 
@@ -236,7 +252,7 @@ private:
      */
     std::string in_bold(std::string const & str)
     {
-        return "<strong>" + str + "</strong>";
+        return "\\fB" + str + "\\fP"; // Converted to HTML by to_html.
     }
 
     //!\brief Current state is either inside a html \<dl\> tag (true) or not (false).
-- 
2.43.0


From 69961d406726e11263622c25ced7115d8eb2e53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 09/45] fix: texts are not interpreted as roff requests in the
 man page

A text that starts with '.' or '\'', e.g. a description '.fasta files are ...',
was taken as a request and vanished from the rendered page.
---
 include/sharg/detail/format_man.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_man.hpp b/include/sharg/detail/format_man.hpp
index 96843c2..155115f 100644
--- a/include/sharg/detail/format_man.hpp
+++ b/include/sharg/detail/format_man.hpp
@@ -122,7 +122,7 @@ private:
         else if (!is_first_in_section && !line_is_paragraph)
             std::cout << ".br\n";
 
-        std::cout << text << "\n";
+        std::cout << escape_control_lines(text) << "\n";
         is_first_in_section = false;
     }
 
@@ -137,7 +137,7 @@ private:
      */
     void print_list_item(std::string const & term, std::string const & desc)
     {
-        std::cout << ".TP\n" << term << "\n" << desc << "\n";
+        std::cout << ".TP\n" << escape_control_lines(term) << "\n" << escape_control_lines(desc) << "\n";
         is_first_in_section = false;
     }
 
@@ -147,6 +147,24 @@ private:
         // no footer
     }
 
+    /*!\brief Protects lines that would be interpreted as a roff request.
+     * \param[in] text The text to print.
+     * \returns The `text`, where lines starting with a control character (`.` or `'`) are prefixed with `\&`.
+     */
+    static std::string escape_control_lines(std::string const & text)
+    {
+        std::string result;
+
+        for (size_t i = 0; i < text.size(); ++i)
+        {
+            if ((text[i] == '.' || text[i] == '\'') && (i == 0 || text[i - 1] == '\n'))
+                result.append("\\&");
+            result.push_back(text[i]);
+        }
+
+        return result;
+    }
+
     /*!\brief Format string as in_bold.
      * \param[in] str The input string to format in bold.
      * \returns The string `str` wrapped in bold formatting.
-- 
2.43.0


From 3b3c47b91d918876631a07aafc6244047937786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 10/45] fix: exported help pages contain advanced options

According to sharg::config::advanced, advanced options are always shown when the
help page is exported with --export-help.
---
 include/sharg/parser.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index d231b0d..8481c1c 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -940,9 +940,9 @@ private:
                 }
 
                 if (arg == "html")
-                    format = detail::format_html{subcommands, version_check_dev_decision};
+                    format = detail::format_html{subcommands, version_check_dev_decision, true};
                 else if (arg == "man")
-                    format = detail::format_man{subcommands, version_check_dev_decision};
+                    format = detail::format_man{subcommands, version_check_dev_decision, true};
                 else if (arg == "ctd")
                     format = detail::format_tdl{detail::format_tdl::FileFormat::CTD};
                 else if (arg == "cwl")
-- 
2.43.0


From e2cd1ea8b5759c65807f7a138b2e08f8b9649c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 11/45] fix: do not require null-terminated keys in
 sharg::enumeration_names

Listing the valid values used std::string_view::data() as a C string.
---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index c8df83c..f27052c 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -334,7 +334,7 @@ private:
 
                 std::string result{'['};
                 for (auto const & [key, value] : key_value_pairs)
-                    result += std::string{key.data()} + ", ";
+                    result += std::string{key} + ", ";
                 result.replace(result.size() - 2, 2, "]"); // replace last ", " by "]"
                 return result;
             }();
-- 
2.43.0


From eb287e6baa59cfb996521d7b0243c6bead9592a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 12/45] fix: help page entries without a description end their
 line

The next entry was printed on the same line as the entry that has an empty
description.
---
 include/sharg/detail/format_help.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 83cac48..eef06b5 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -379,8 +379,7 @@ protected:
                 }
             }
         }
-        if (!empty(tokens))
-            std::cout << '\n';
+        std::cout << '\n';
     }
 
     /*!\brief Format string in bold.
-- 
2.43.0


From 224c5252e05317d04daa55e53e8c88232d8895f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 13/45] fix: lists of 8 bit integers are printed as numbers

The help page showed 'Default: [A, B]' for {65, 66} (and 'Value must be one of
[A, B]'), although single 8 bit integers are printed, and parsed, as numbers.
---
 include/sharg/detail/to_string.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/to_string.hpp b/include/sharg/detail/to_string.hpp
index a8e90a6..e6dbd89 100644
--- a/include/sharg/detail/to_string.hpp
+++ b/include/sharg/detail/to_string.hpp
@@ -41,7 +41,17 @@ std::string to_string(value_types &&... values)
 {
     std::stringstream stream;
 
-    auto print = [&stream](auto && val)
+    auto print_value = [&stream](auto && val)
+    {
+        using value_t = std::remove_cvref_t<decltype(val)>;
+
+        if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
+            stream << static_cast<int16_t>(val);
+        else
+            stream << val;
+    };
+
+    auto print = [&stream, &print_value](auto && val)
     {
         using value_t = std::remove_cvref_t<decltype(val)>;
 
@@ -57,19 +67,18 @@ std::string to_string(value_types &&... values)
             {
                 stream << '[';
                 auto it = val.begin();
-                stream << *it++;
+                print_value(*it++);
                 for (; it != val.end(); ++it)
-                    stream << ", " << *it;
+                {
+                    stream << ", ";
+                    print_value(*it);
+                }
                 stream << ']';
             }
         }
-        else if constexpr (std::is_same_v<value_t, int8_t> || std::is_same_v<value_t, uint8_t>)
-        {
-            stream << static_cast<int16_t>(val);
-        }
         else
         {
-            stream << val;
+            print_value(val);
         }
     };
 
-- 
2.43.0


From 6a9d3eb859c9930af0f94bb1eb01688184af94e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:27 +0000
Subject: [PATCH 14/45] fix: a parser can be moved after options have been
 added

The stored operations referred to the moved-from parser, so the options added
before the move were lost (or a destroyed parser was accessed).
---
 include/sharg/parser.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 8481c1c..d871640 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -243,7 +243,7 @@ public:
         check_parse_not_called("add_option");
         verify_option_config(config);
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](auto & format)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
@@ -279,7 +279,7 @@ public:
         if (value)
             throw design_error("A flag's default value must be false.");
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](auto & format)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
@@ -330,7 +330,7 @@ public:
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
-        auto operation = [this, &value, config]()
+        auto operation = [&value, config](auto & format)
         {
             auto visit_fn = [&value, &config](auto & f)
             {
@@ -426,7 +426,7 @@ public:
 
         // Apply all defered operations to the parser, e.g., `add_option`, `add_flag`, `add_positional_option`.
         for (auto & operation : operations)
-            operation();
+            operation(format);
 
         // The version check, which might exit the program, must be called before calling parse on the format.
         run_version_check();
@@ -533,7 +533,7 @@ public:
     {
         check_parse_not_called("add_section");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](auto & format)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
@@ -560,7 +560,7 @@ public:
     {
         check_parse_not_called("add_subsection");
 
-        auto operation = [this, title, advanced_only]()
+        auto operation = [title, advanced_only](auto & format)
         {
             auto visit_fn = [&title, advanced_only](auto & f)
             {
@@ -588,7 +588,7 @@ public:
     {
         check_parse_not_called("add_line");
 
-        auto operation = [this, text, is_paragraph, advanced_only]()
+        auto operation = [text, is_paragraph, advanced_only](auto & format)
         {
             auto visit_fn = [&text, is_paragraph, advanced_only](auto & f)
             {
@@ -625,7 +625,7 @@ public:
     {
         check_parse_not_called("add_list_item");
 
-        auto operation = [this, key, desc, advanced_only]()
+        auto operation = [key, desc, advanced_only](auto & format)
         {
             auto visit_fn = [&key, &desc, advanced_only](auto & f)
             {
@@ -775,8 +775,9 @@ private:
     //!\brief Set of option identifiers (including -/--) that have been added via `add_option`.
     std::unordered_set<std::string> options{};
 
-    //!\brief Vector of functions that stores all calls.
-    std::vector<std::function<void()>> operations;
+    //!\brief Vector of functions that stores all calls. They are applied to the format, which must be passed because
+    //!        the parser may be moved.
+    std::vector<std::function<void(decltype(format) &)>> operations;
 
     /*!\brief Handles format and subcommand detection.
      * \throws sharg::too_few_arguments if option --export-help was specified without a value
-- 
2.43.0


From fbb87541d63e735ef9348a8164a1063c373d9998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 15/45] fix: empty positional arguments are not dropped

'app "" x' parsed x as the first positional argument, because the empty string
marked arguments that have already been consumed.
---
 include/sharg/detail/format_parse.hpp | 65 +++++++++++++++------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index f27052c..d319257 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -105,6 +105,7 @@ public:
     //!\brief Initiates the actual command line parsing.
     void parse(parser_meta_data const & /*meta*/)
     {
+        consumed.assign(arguments.size(), false);
         end_of_options_it = std::find(arguments.begin(), arguments.end(), "--");
 
         // parse options first, because we need to rule out -keyValue pairs
@@ -118,7 +119,7 @@ public:
         check_for_unknown_ids();
 
         if (end_of_options_it != arguments.end())
-            *end_of_options_it = ""; // remove -- before parsing positional arguments
+            consume(end_of_options_it); // remove -- before parsing positional arguments
 
         for (auto && f : positional_option_calls)
             f();
@@ -239,6 +240,26 @@ private:
             return prepend_dash(short_id) + "/" + prepend_dash(long_id);
     }
 
+    /*!\brief Removes an argument, i.e. marks it as consumed.
+     * \param[in] it The position of the argument in format_parse::arguments.
+     */
+    void consume(std::vector<std::string>::iterator const it)
+    {
+        it->clear();
+        consumed[it - arguments.begin()] = true;
+    }
+
+    /*!\brief Returns the first argument that was not consumed yet. Note that this might be the empty string.
+     * \param[in] it The position in format_parse::arguments to start the search from.
+     */
+    std::vector<std::string>::iterator find_unconsumed(std::vector<std::string>::iterator it)
+    {
+        while (it != arguments.end() && consumed[it - arguments.begin()])
+            ++it;
+
+        return it;
+    }
+
     /*!\brief Returns true and removes the long identifier if it is in format_parse::arguments.
      * \param[in] long_id The long identifier of the flag to check.
      */
@@ -247,7 +268,7 @@ private:
         auto it = std::find(arguments.begin(), end_of_options_it, prepend_dash(long_id));
 
         if (it != end_of_options_it)
-            *it = ""; // remove seen flag
+            consume(it); // remove seen flag
 
         return (it != end_of_options_it);
     }
@@ -272,7 +293,7 @@ private:
                     arg.erase(pos, 1); // remove seen bool
 
                     if (arg == "-") // if flag is empty now
-                        arg = "";
+                        consume(it);
 
                     return true;
                 }
@@ -526,16 +547,16 @@ private:
                     input_value = (*option_it).substr(id_size);
                 }
 
-                *option_it = ""; // remove used identifier-value pair
+                consume(option_it); // remove used identifier-value pair
             }
             else // -key value
             {
-                *option_it = ""; // remove used identifier
+                consume(option_it); // remove used identifier
                 ++option_it;
                 if (option_it == end_of_options_it) // should not happen
                     throw too_few_arguments("Missing value for option " + prepend_dash(id));
                 input_value = *option_it;
-                *option_it = ""; // remove value
+                consume(option_it); // remove value
             }
 
             auto res = parse_option_value(value, input_value);
@@ -670,17 +691,11 @@ private:
      * This function is used by format_parse::parse() AFTER all flags, options
      * and positional options specified by the developer were parsed and
      * therefore removed from arguments.
-     * Thus, all remaining non-empty arguments are too much.
+     * Thus, all remaining arguments are too much.
      */
     void check_for_left_over_args()
     {
-        if (std::find_if(arguments.begin(),
-                         arguments.end(),
-                         [](std::string const & s)
-                         {
-                             return (s != "");
-                         })
-            != arguments.end())
+        if (find_unconsumed(arguments.begin()) != arguments.end())
             throw too_many_arguments("Too many arguments provided. Please see -h/--help for more information.");
     }
 
@@ -774,7 +789,7 @@ private:
      * -#) arguments has been stripped from all known options and flags
      * -#) arguments has been checked for unknown options
      * -#) arguments does not contain "--" anymore
-     *  Thus we can simply iterate over non empty entries of arguments.
+     *  Thus we can simply iterate over the entries of arguments that were not consumed yet.
      *
      * This function
      * - checks if the user did not provide enough arguments,
@@ -784,12 +799,7 @@ private:
     void get_positional_option(option_type & value, validator_type && validator)
     {
         ++positional_option_count;
-        auto it = std::find_if(arguments.begin(),
-                               arguments.end(),
-                               [](std::string const & s)
-                               {
-                                   return (s != "");
-                               });
+        auto it = find_unconsumed(arguments.begin());
 
         if (it == arguments.end())
             throw too_few_arguments("Not enough positional arguments provided (Need at least "
@@ -809,13 +819,8 @@ private:
                 std::string id = "positional option" + std::to_string(positional_option_count);
                 throw_on_input_error<option_type>(res, id, *it);
 
-                *it = ""; // remove arg from arguments
-                it = std::find_if(it,
-                                  arguments.end(),
-                                  [](std::string const & s)
-                                  {
-                                      return (s != "");
-                                  });
+                consume(it); // remove arg from arguments
+                it = find_unconsumed(it);
                 ++positional_option_count;
             }
         }
@@ -825,7 +830,7 @@ private:
             std::string id = "positional option" + std::to_string(positional_option_count);
             throw_on_input_error<option_type>(res, id, *it);
 
-            *it = ""; // remove arg from arguments
+            consume(it); // remove arg from arguments
         }
 
         try
@@ -849,6 +854,8 @@ private:
     unsigned positional_option_count{0};
     //!\brief Vector of command line arguments.
     std::vector<std::string> arguments;
+    //!\brief Whether the argument at the same position in format_parse::arguments was consumed.
+    std::vector<bool> consumed;
     //!\brief Artificial end of arguments if \-- was seen.
     std::vector<std::string>::iterator end_of_options_it;
 };
-- 
2.43.0


From 889dcdb8313fdd844ed370de08b4325fc08987d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 16/45] fix: an option that is followed by another option has
 no value

'--name --threads 4' silently set name to the empty string if --threads was
added before --name, because its arguments have already been consumed.
---
 include/sharg/detail/format_parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_parse.hpp b/include/sharg/detail/format_parse.hpp
index d319257..c185f40 100644
--- a/include/sharg/detail/format_parse.hpp
+++ b/include/sharg/detail/format_parse.hpp
@@ -553,7 +553,7 @@ private:
             {
                 consume(option_it); // remove used identifier
                 ++option_it;
-                if (option_it == end_of_options_it) // should not happen
+                if (option_it == end_of_options_it || consumed[option_it - arguments.begin()])
                     throw too_few_arguments("Missing value for option " + prepend_dash(id));
                 input_value = *option_it;
                 consume(option_it); // remove value
-- 
2.43.0


From 1a6b06b2d80ff3e85165de5a22444809e03a6a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 17/45] fix: the output file validator does not remove files
 that it rejects

An existing file was removed if it had no valid extension or if it was not
writable. A writable file in a read-only directory triggered an assertion.
---
 include/sharg/validators.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index f448d51..537d68c 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -446,16 +446,18 @@ protected:
         // LCOV_EXCL_STOP
 
         std::ofstream file{path};
-        sharg::detail::safe_filesystem_entry file_guard{path};
 
         bool is_open = file.is_open();
         bool is_good = file.good();
         file.close();
 
+        // If the path could not be opened, nothing was created. An already existing file must not be removed.
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
-        file_guard.remove();
+        // A writable file might reside in a directory that does not permit to remove it.
+        std::error_code ec{};
+        std::filesystem::remove(path, ec);
     }
 
     //!\brief Returns the information of valid file extensions.
@@ -728,10 +730,11 @@ public:
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
+            // Check extension. This must be done first, because checking for write permissions replaces the file.
+            validate_filename(file);
+
             // Check if file has any write permissions.
             validate_writeability(file);
-
-            validate_filename(file);
         }
         // LCOV_EXCL_START
         catch (std::filesystem::filesystem_error & ex)
-- 
2.43.0


From e0deb661ddc255a3ffeefbc19d1fac215c94b8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 18/45] fix: the output directory validator does not remove a
 file named dummy.txt

To check the write permissions, 'dummy.txt' is created and removed. A file of
this name in the output directory was lost.
---
 include/sharg/detail/safe_filesystem_entry.hpp | 16 ++++++++++++++++
 include/sharg/validators.hpp                   |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/safe_filesystem_entry.hpp b/include/sharg/detail/safe_filesystem_entry.hpp
index 2c7104f..d4fa435 100644
--- a/include/sharg/detail/safe_filesystem_entry.hpp
+++ b/include/sharg/detail/safe_filesystem_entry.hpp
@@ -11,6 +11,7 @@
 
 #include <cassert>
 #include <filesystem>
+#include <string>
 #include <system_error>
 
 #include <sharg/platform.hpp>
@@ -98,4 +99,19 @@ private:
     std::filesystem::path entry;
 };
 
+/*!\brief Returns the path of a file that does not exist yet and can be used to check the write permissions.
+ * \ingroup parser
+ * \param[in] directory The directory of the file.
+ */
+inline std::filesystem::path unused_file_path(std::filesystem::path const & directory)
+{
+    std::error_code ec;
+    std::filesystem::path result = directory / "dummy.txt";
+
+    for (size_t i = 1; std::filesystem::exists(std::filesystem::symlink_status(result, ec)); ++i)
+        result = directory / ("dummy" + std::to_string(i) + ".txt");
+
+    return result;
+}
+
 } // namespace sharg::detail
diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 537d68c..59855aa 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -923,12 +923,12 @@ public:
             if (!dir_exists)
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
-                validate_writeability(dir / "dummy.txt");
+                validate_writeability(detail::unused_file_path(dir));
                 dir_guard.remove_all();
             }
             else
             {
-                validate_writeability(dir / "dummy.txt");
+                validate_writeability(detail::unused_file_path(dir));
             }
         }
         // LCOV_EXCL_START
-- 
2.43.0


From aab2148687f79822e04ab449696e64856c8d7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 19/45] fix: the version check does not remove a file named
 dummy.txt

The file is used to check the write permissions of ~/.config/seqan, respectively
of the directory for temporary files, where anyone might store such a file.
---
 include/sharg/detail/version_check.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b57c93d..9356b15 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -245,7 +245,7 @@ public:
             tmp_path = temp_directory_path(); // choose temp dir instead
 
         // check if files can be written inside dir
-        path dummy = tmp_path / "dummy.txt";
+        path dummy = unused_file_path(tmp_path);
         std::ofstream file{dummy};
         sharg::detail::safe_filesystem_entry file_guard{dummy};
 
-- 
2.43.0


From ca874f5de5952906f657fba9f7740c5ac5e6ae6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 20/45] fix: parsing does not depend on HOME and a directory
 for temporary files

If HOME is not set, parse() failed with std::logic_error, even if update
notifications are turned off. If neither ~/.config/seqan nor a directory for
temporary files is available, it failed with std::filesystem::filesystem_error.
---
 include/sharg/detail/version_check.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 9356b15..db2597e 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -225,13 +225,20 @@ public:
         using namespace std::filesystem;
 
         path tmp_path;
+        std::error_code err;
 
-        tmp_path = std::string{getenv(home_env_name)};
-        tmp_path /= ".config";
+        if (char const * const home = getenv(home_env_name); home != nullptr && *home != '\0')
+        {
+            tmp_path = std::string{home};
+            tmp_path /= ".config";
 
-        // First, create .config if it does not already exist.
-        std::error_code err;
-        create_directory(tmp_path, err);
+            // First, create .config if it does not already exist.
+            create_directory(tmp_path, err);
+        }
+        else
+        {
+            err = std::make_error_code(std::errc::no_such_file_or_directory);
+        }
 
         // If this did not fail we, create the seqan subdirectory.
         if (!err)
@@ -242,7 +249,11 @@ public:
 
         // .config/seqan cannot be created, try tmp directory.
         if (err)
-            tmp_path = temp_directory_path(); // choose temp dir instead
+            tmp_path = temp_directory_path(err); // choose temp dir instead
+
+        // There is no usable directory.
+        if (tmp_path.empty())
+            return tmp_path;
 
         // check if files can be written inside dir
         path dummy = unused_file_path(tmp_path);
-- 
2.43.0


From 8c275def6d2ea766db244f855f67cebb47ce0d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:23 +0000
Subject: [PATCH 21/45] fix: no version check is done if there is no directory
 to store its files

As documented for get_path(), an empty path signals that no version check will
be done. Instead, the files were written to the current working directory.
---
 include/sharg/detail/version_check.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index db2597e..4c0d217 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -306,6 +306,9 @@ public:
         if (std::getenv("SHARG_NO_VERSION_CHECK") != nullptr) // environment variable was set
             return false;
 
+        if (cookie_path.empty()) // no writable directory to store timestamp and version files
+            return false;
+
         if (user_approval.has_value())
             return user_approval.value();
 
-- 
2.43.0


From a7fc621b1b20a9c994e606a0d93a50753453a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 22/45] fix: an inaccessible ~/.config/seqan does not abort the
 program

The guard of the test file could not remove a file within a directory that must
not be searched, and asserts that this never fails.
---
 include/sharg/detail/version_check.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 4c0d217..cce18ef 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -258,12 +258,13 @@ public:
         // check if files can be written inside dir
         path dummy = unused_file_path(tmp_path);
         std::ofstream file{dummy};
-        sharg::detail::safe_filesystem_entry file_guard{dummy};
 
         bool is_open = file.is_open();
         bool is_good = file.good();
         file.close();
-        file_guard.remove_no_throw();
+
+        if (is_open)
+            remove(dummy, err);
 
         if (!is_good || !is_open) // no write permissions
         {
-- 
2.43.0


From ebec74550ac4c406152f7b31fabd6e2c41778899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:47 +0000
Subject: [PATCH 23/45] fix: the path of the version file is quoted in the
 version check command

The path is derived from HOME. If it contained a space, the response was written
to another file; other special characters were interpreted by the shell.
---
 include/sharg/detail/version_check.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index cce18ef..b529d51 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -182,12 +182,12 @@ public:
             return;
         }
 
-        // 'cookie_path' is no user input and `name` is escaped on construction of the parser.
+        // `name` is escaped on construction of the parser. 'cookie_path' depends on the environment.
         std::filesystem::path out_file = cookie_path / (name + ".version");
 
         // build up command for server call
         std::string command = program + // no user defined input
-                              " " + out_file.string() + " "
+                              " " + quote_for_shell(out_file.string()) + " "
                             + std::string{"https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_"} +
 #ifdef __linux
                               "Linux" +
@@ -473,6 +473,28 @@ private:
 #endif     // defined(_WIN32)
     }
 
+    /*!\brief Quotes a path such that the shell takes it verbatim.
+     * \param[in] path The path to quote. It depends on the environment, e.g. `HOME`, and may contain any character.
+     */
+    static std::string quote_for_shell(std::string const & path)
+    {
+#if defined(_WIN32)
+        return path;
+#else
+        std::string result{"'"};
+
+        for (char const c : path)
+        {
+            if (c == '\'')
+                result += "'\\''"; // end quotation, escaped quote, start quotation
+            else
+                result += c;
+        }
+
+        return result += '\'';
+#endif
+    }
+
     //!\brief Reads the timestamp file if possible and returns the time difference to the current time.
     double get_time_diff_to_current(std::string const & str_time) const
     {
-- 
2.43.0


From 14cbb41423d6156db743f8e4d7289da1de095c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 24/45] fix: the arithmetic range validator does not truncate
 values before comparing

A value of another arithmetic type was converted to the type of the range first:
arithmetic_range_validator{1, 7} accepted 7.5 and, for 64 bit options, 4294967297.
---
 include/sharg/validators.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 59855aa..e404594 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -107,6 +107,25 @@ public:
             throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
     }
 
+    /*!\brief Tests whether cmp lies inside [`min`, `max`].
+     * \tparam value_type The arithmetic type of cmp; differs from the type of the range.
+     * \param  cmp The input value to check.
+     * \throws sharg::validation_error
+     *
+     * \details
+     *
+     * The value is not converted to the type of the range, e.g., 7.5 does not lie inside [1,7].
+     */
+    template <typename value_type>
+        requires std::is_arithmetic_v<value_type> && (!std::same_as<value_type, option_value_type>)
+    void operator()(value_type const & cmp) const
+    {
+        auto const value = static_cast<long double>(cmp);
+
+        if (!((value <= static_cast<long double>(max)) && (value >= static_cast<long double>(min))))
+            throw validation_error{"Value " + std::to_string(cmp) + " is not in range " + valid_range_str + "."};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside [`min`, `max`].
      * \tparam range_type The type of range to check; must model std::ranges::forward_range. The value type must model
      *                    std::is_arithmetic_v.
-- 
2.43.0


From b942da45ea54bd1b3e1a066d3ef4698ed473d685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:12 +0000
Subject: [PATCH 25/45] fix: the output file validator does not remove symbolic
 links and special files

---
 include/sharg/validators.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index e404594..ff5413c 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -474,9 +474,15 @@ protected:
         if (!is_good || !is_open)
             throw validation_error{"Cannot write \"" + path.string() + "\"!"};
 
-        // A writable file might reside in a directory that does not permit to remove it.
+        // Symbolic links are kept: the file that they refer to was opened. Special files are kept, too.
         std::error_code ec{};
-        std::filesystem::remove(path, ec);
+        std::filesystem::path target = std::filesystem::canonical(path, ec);
+        if (static_cast<bool>(ec))
+            target = path;
+
+        // A writable file might reside in a directory that does not permit to remove it.
+        if (std::filesystem::is_regular_file(target, ec))
+            std::filesystem::remove(target, ec);
     }
 
     //!\brief Returns the information of valid file extensions.
-- 
2.43.0


From 6036aa9aa24a6453e0f0e9acb9ec2acb2ba9eb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 26/45] fix: the end of an extension is not a valid extension

---
 include/sharg/validators.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index ff5413c..c4cc74f 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -408,10 +408,11 @@ protected:
         // Store a string_view containing all extensions for a better error message.
         std::string const all_extensions{file_path.substr(file_path.find(".") + 1)};
 
-        // Compares the extensions in lower case.
+        // Compares the extensions in lower case. An extension starts behind a dot.
         auto case_insensitive_ends_with = [&](std::string const & ext)
         {
-            return case_insensitive_string_ends_with(file_path, ext);
+            bool const includes_dot = ext.empty() || ext.front() == '.';
+            return case_insensitive_string_ends_with(file_path, includes_dot ? ext : '.' + ext);
         };
 
         // Check if requested extension is present.
-- 
2.43.0


From 098f63a979e9552fdc8fb6b124e4a29b41cf46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:34 +0000
Subject: [PATCH 27/45] fix: output validators report inaccessible paths as
 validation_error

---
 include/sharg/validators.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index c4cc74f..266672e 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -748,11 +748,11 @@ public:
      */
     virtual void operator()(std::filesystem::path const & file) const override
     {
-        if (std::filesystem::is_directory(file))
-            throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
-
         try
         {
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             if ((open_mode == output_file_open_options::create_new) && std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" already exists!"};
 
@@ -936,9 +936,10 @@ public:
      */
     virtual void operator()(std::filesystem::path const & dir) const override
     {
-        bool dir_exists = std::filesystem::exists(dir);
-        // Make sure the created dir is deleted after we are done.
+        // If it cannot be determined whether the path exists (e.g. because of permissions), it cannot be created.
         std::error_code ec;
+        bool dir_exists = std::filesystem::exists(dir, ec);
+        // Make sure the created dir is deleted after we are done.
         std::filesystem::create_directory(dir, ec); // does nothing and is not treated as error if path already exists.
         // if error code was set or if dummy.txt could not be created within the output dir, throw an error.
         if (static_cast<bool>(ec))
-- 
2.43.0


From 0b87bf64166d643899a9caa5def1eaa2ff2ca990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 28/45] fix: the regex validator matches a path as a whole

A std::filesystem::path was treated as a list of its components, each of which had to match the pattern.
---
 include/sharg/validators.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 266672e..013c7e8 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -1042,6 +1042,7 @@ public:
      */
     template <std::ranges::forward_range range_type>
         requires std::convertible_to<std::ranges::range_reference_t<range_type>, std::string const &>
+              && (!std::same_as<std::remove_cvref_t<range_type>, std::filesystem::path>)
     void operator()(range_type const & v) const
     {
         for (auto && entry : v)
-- 
2.43.0


From bfa73df8c6e15f5d8d135f5d08222c59e5ec5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 29/45] fix: the value list validator does not truncate values
 before comparing

A value of another arithmetic type was converted to the type of the listed values first: value_list_validator{1, 2}
accepted 1.5 and, for 64 bit options, 4294967297.
---
 include/sharg/validators.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 013c7e8..4bf3e5f 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -250,6 +250,34 @@ public:
             throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
     }
 
+    /*!\brief Tests whether cmp lies inside values.
+     * \tparam value_type The arithmetic type of cmp; differs from the type of the listed values.
+     * \param  cmp The input value to check.
+     * \throws sharg::validation_error
+     *
+     * \details
+     *
+     * The value is not converted to the type of the listed values, e.g., 1.5 is not one of [1,2].
+     */
+    template <typename value_type>
+        requires std::is_arithmetic_v<value_type> && std::is_arithmetic_v<option_value_type>
+              && (!std::same_as<value_type, option_value_type>)
+    void operator()(value_type const & cmp) const
+    {
+        constexpr bool is_integral = std::integral<value_type> && std::integral<option_value_type>;
+        // A long double can represent the values of all integral types.
+        using compare_type =
+            std::conditional_t<is_integral, long double, std::common_type_t<value_type, option_value_type>>;
+
+        auto is_equal = [&cmp](option_value_type const value)
+        {
+            return static_cast<compare_type>(value) == static_cast<compare_type>(cmp);
+        };
+
+        if (std::find_if(values.begin(), values.end(), is_equal) == values.end())
+            throw validation_error{detail::to_string("Value ", cmp, " is not one of ", values, ".")};
+    }
+
     /*!\brief Tests whether every element in \p range lies inside values.
      * \tparam range_type The type of range to check; must model std::ranges::forward_range.
      * \param  range      The input range to iterate over and check every element.
-- 
2.43.0


From 325fe3d3a9a3848c27ac87d7fce10a46369f2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 30/45] fix: the input file validator rejects directories

---
 include/sharg/validators.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 4bf3e5f..6ec48d2 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -623,6 +623,10 @@ public:
             if (!std::filesystem::exists(file))
                 throw validation_error{"The file \"" + file.string() + "\" does not exist!"};
 
+            // Directories can be read, too, but they are no files.
+            if (std::filesystem::is_directory(file))
+                throw validation_error{"\"" + file.string() + "\" is a directory. Expected a file."};
+
             // Check if file is regular and can be opened for reading.
             validate_readability(file);
 
-- 
2.43.0


From f0a02bded44fff42a5c2bf8da1703d08f3b3b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:41 +0000
Subject: [PATCH 31/45] fix: an overlong first word does not disturb the layout
 of the help page

---
 include/sharg/detail/format_help.hpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index eef06b5..38dfd94 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -353,13 +353,7 @@ protected:
             if (it == tokens.begin())
             {
                 std::cout << to_text(*it);
-                pos += text_width(*it);
-                if (pos > layout.screenWidth)
-                {
-                    std::cout << '\n';
-                    std::fill_n(out, tab, ' ');
-                    pos = tab;
-                }
+                pos += text_width(*it); // If this exceeds the screen, the next word is printed on the next line.
             }
             else
             {
-- 
2.43.0


From 9e1e947652f783097b9b096124cf99633065d6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:04 +0000
Subject: [PATCH 32/45] fix: backslashes count for the width of help page texts

---
 include/sharg/detail/format_help.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 38dfd94..7feae38 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -304,27 +304,24 @@ protected:
                 continue;
             }
 
-            if (text[i + 1] == '\\' || text[i + 1] == '-')
+            if (text[i + 1] == '-')
             {
                 i += 1;
                 result += 1;
-                continue; // Will print '\\' or '-'.
+                continue; // Will print '-'.
             }
 
-            if (i + 2 == text.size())
+            if (i + 2 == text.size() || text[i + 1] != 'f')
             {
                 i += 1;
                 result += 2; // Will print two chars.
                 continue;
             }
 
-            if (text[i + 1] == 'f')
-            {
-                if (text[i + 2] == 'B' || text[i + 2] == 'I' || text[i + 2] == 'P')
-                    i += 2; // Skip f and {B, I, P}.
-                else
-                    result += 1;
-            }
+            if (text[i + 2] != 'B' && text[i + 2] != 'I' && text[i + 2] != 'P')
+                result += 3; // Will print three chars.
+
+            i += 2;
         }
 
         return result;
-- 
2.43.0


From 2edaf1d635fbec702a7d75df8facea8a57049e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:36 +0000
Subject: [PATCH 33/45] fix: escape sequences do not count for the width of
 help page texts

---
 include/sharg/detail/format_help.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_help.hpp b/include/sharg/detail/format_help.hpp
index 7feae38..c601e33 100644
--- a/include/sharg/detail/format_help.hpp
+++ b/include/sharg/detail/format_help.hpp
@@ -284,7 +284,7 @@ protected:
 
     /*!\brief Returns width of text if printed.
      * \param[in] text The string to compute the width for on the command line.
-     * /detail Note: "\-" has length 1, "\fI", "\fB", "\fP" have length 0.
+     * /detail Note: "\-" has length 1, "\fI", "\fB", "\fP" have length 0. Terminal escape sequences have length 0.
      */
     unsigned text_width(std::string const & text)
     {
@@ -292,6 +292,12 @@ protected:
 
         for (unsigned i = 0; i < text.size(); ++i)
         {
+            if (text[i] == '\033') // Text that was already formatted, e.g. by in_bold().
+            {
+                i = std::min(text.find('m', i), text.size() - 1); // Skip the escape sequence.
+                continue;
+            }
+
             if (text[i] != '\\')
             {
                 result += 1;
-- 
2.43.0


From 81e011ee6f2ef45c560c03c940376e21b46254d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 34/45] fix: add_subcommands may not be called after parse

---
 include/sharg/parser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index d871640..615f61c 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -640,6 +640,7 @@ public:
 
     /*!\brief Adds subcommands to the parser.
      * \param[in] subcommands A list of subcommands.
+     * \throws sharg::design_error if sharg::parser::parse was already called.
      * \details
      * Adds subcommands to the current parser. The list of subcommands is sorted and duplicates are removed.
      *
@@ -651,6 +652,8 @@ public:
      */
     void add_subcommands(std::vector<std::string> const & subcommands)
     {
+        check_parse_not_called("add_subcommands");
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
-- 
2.43.0


From 1ee0a51de09da5eba54e60d5a80c6c729d4379a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 35/45] fix: subcommands may not be added to a parser with
 positional options

---
 include/sharg/parser.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/sharg/parser.hpp b/include/sharg/parser.hpp
index 615f61c..14ed980 100644
--- a/include/sharg/parser.hpp
+++ b/include/sharg/parser.hpp
@@ -327,6 +327,8 @@ public:
         check_parse_not_called("add_positional_option");
         verify_positional_option_config(config);
 
+        has_positional_option = true; // keep track of positional options because there must be no subcommands
+
         if constexpr (detail::is_container_option<option_type>)
             has_positional_list_option = true; // keep track of a list option because there must be only one!
 
@@ -641,6 +643,7 @@ public:
     /*!\brief Adds subcommands to the parser.
      * \param[in] subcommands A list of subcommands.
      * \throws sharg::design_error if sharg::parser::parse was already called.
+     * \throws sharg::design_error if there are positional options.
      * \details
      * Adds subcommands to the current parser. The list of subcommands is sorted and duplicates are removed.
      *
@@ -654,6 +657,9 @@ public:
     {
         check_parse_not_called("add_subcommands");
 
+        if (has_positional_option && !subcommands.empty())
+            throw design_error{"You may only specify flags and options for the top-level parser."};
+
         auto & parser_subcommands = this->subcommands;
         parser_subcommands.insert(parser_subcommands.end(), subcommands.cbegin(), subcommands.cend());
 
@@ -719,6 +725,9 @@ private:
     //!\brief Keeps track of whether the parse function has been called already.
     bool parse_was_called{false};
 
+    //!\brief Keeps track of whether the user has added a positional option.
+    bool has_positional_option{false};
+
     //!\brief Keeps track of whether the user has added a positional list option to check if this was the very last.
     bool has_positional_list_option{false};
 
-- 
2.43.0


From 0301fef7434d4cfa6bfd08ec8203f20660829f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:26 +0000
Subject: [PATCH 36/45] fix: version checks that are always made update the
 timestamp

---
 include/sharg/detail/version_check.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index b529d51..d46f2d1 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -292,7 +292,7 @@ public:
      *
      * If none of the above apply, version check was not explicitly handled so cookie content is checked:
      * * NEVER: Do not perform the version check and do not change the cookie.
-     * * ALWAYS: Do perform the version check once a day and do not change the cookie.
+     * * ALWAYS: Do perform the version check once a day and update the timestamp of the cookie.
      * * ASK: Ask the user or default the decision once a day.
      *
      * If the cookie content is "ASK" and the timestamp is older than a day we ask the user,
@@ -328,7 +328,9 @@ public:
                     return false;
                 }
 
-                std::getline(timestamp_file, cookie_line); // second line contains the last user decision
+                // second line contains the last user decision
+                bool const has_timestamp = static_cast<bool>(std::getline(timestamp_file, cookie_line));
+                timestamp_file.close();
 
                 if (cookie_line == "NEVER")
                 {
@@ -336,11 +338,12 @@ public:
                 }
                 else if (cookie_line == "ALWAYS")
                 {
+                    if (has_timestamp)
+                        write_cookie("ALWAYS"); // Update the timestamp. There is at most one request per day.
+
                     return true;
                 }
                 // else we do not return but continue to ask the user
-
-                timestamp_file.close();
             }
         }
 
-- 
2.43.0


From adbb9c93d36ba1f6b7a8e216f566aeed41872c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:51 +0000
Subject: [PATCH 37/45] fix: a missing Sharg version in the version file is not
 replaced by the application's

---
 include/sharg/detail/version_check.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index d46f2d1..1f8f8b7 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -143,8 +143,9 @@ public:
                 std::cerr << message_unregistered_app;
 #endif // !defined(NDEBUG)
 
-            std::getline(version_file, line); // get second line which should only contain the version number of sharg
-            srv_sharg_version = get_numbers_from_version_string(line);
+            // get second line which should only contain the version number of sharg
+            if (std::getline(version_file, line))
+                srv_sharg_version = get_numbers_from_version_string(line);
 
             version_file.close();
         }
-- 
2.43.0


From de3cb8a7c449aa6cc2361908a2788242e554f6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:46 +0000
Subject: [PATCH 38/45] fix: version files of any length and content are read
 safely

---
 include/sharg/detail/version_check.hpp | 33 +++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 1f8f8b7..7ff6dd9 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -13,6 +13,7 @@
 #include <fstream>
 #include <future>
 #include <iostream>
+#include <limits>
 #include <optional>
 #include <regex>
 #include <sharg/std/charconv>
@@ -446,8 +447,6 @@ public:
     std::string name;
     //!\brief The version of the application.
     std::string version{"0.0.0"};
-    //!\brief The regex to verify a valid version string.
-    std::regex version_regex{"^[[:digit:]]+\\.[[:digit:]]+\\.[[:digit:]]+$"};
     //!\brief The path to store timestamp and version files (either ~/.config/seqan or the tmp directory).
     std::filesystem::path cookie_path = get_path();
     //!\brief The timestamp filename.
@@ -512,18 +511,36 @@ private:
     }
 
     /*!\brief Parses a version string into an array of length 3.
-     * \param[in] str The version string that must match sharg::detail::version_regex.
+     * \param[in] str The version string that must consist of three numbers separated by '.'.
+     * \returns The three numbers or zeros if the string is not a version string.
      */
     std::array<int, 3> get_numbers_from_version_string(std::string const & str) const
     {
         std::array<int, 3> result{};
 
-        if (!std::regex_match(str, version_regex))
-            return result;
+        std::array<int, 3> numbers{};
+        char const * it = str.data();
+        char const * const end = it + str.size();
 
-        auto res = std::from_chars(str.data(), str.data() + str.size(), result[0]); // stops and sets res.ptr at '.'
-        res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[1]);
-        res = std::from_chars(res.ptr + 1, str.data() + str.size(), result[2]);
+        // The string may have any length and content, so it is not matched by a (recursive) regular expression.
+        for (size_t i = 0; i < numbers.size(); ++i)
+        {
+            if (i != 0 && (it == end || *it++ != '.'))
+                return result;
+
+            if (it == end || *it < '0' || *it > '9')
+                return result;
+
+            auto const res = std::from_chars(it, end, numbers[i]);
+
+            if (res.ec == std::errc::result_out_of_range)
+                numbers[i] = std::numeric_limits<int>::max();
+
+            it = res.ptr;
+        }
+
+        if (it == end)
+            result = numbers;
 
         return result;
     }
-- 
2.43.0


From d8d9ed08595a3b919aad4236445d182aeec93909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:29 +0000
Subject: [PATCH 39/45] fix: parsing does not fail if no thread can be started
 for the version check

---
 include/sharg/detail/version_check.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/sharg/detail/version_check.hpp b/include/sharg/detail/version_check.hpp
index 7ff6dd9..ff51935 100644
--- a/include/sharg/detail/version_check.hpp
+++ b/include/sharg/detail/version_check.hpp
@@ -17,6 +17,8 @@
 #include <optional>
 #include <regex>
 #include <sharg/std/charconv>
+#include <system_error>
+#include <thread>
 
 #include <sharg/auxiliary.hpp>
 #include <sharg/detail/safe_filesystem_entry.hpp>
@@ -218,7 +220,14 @@ public:
 #endif
 
         // launch a separate thread to not defer runtime.
-        std::thread(call_server, command, std::move(prom)).detach();
+        try
+        {
+            std::thread(call_server, command, std::move(prom)).detach();
+        }
+        catch (std::system_error const &)
+        {
+            // No thread could be started, e.g., because of resource limits. There is no request.
+        }
     }
 
     //!\brief Returns a writable path to store timestamp and version files or an empty path if none exists.
-- 
2.43.0


From 7f81947bad6c87656f3f8b834221cb17e7ca0988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:42 +0000
Subject: [PATCH 40/45] fix: types that provide their enumeration names for
 std::type_identity can be printed

---
 include/sharg/enumeration_names.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/enumeration_names.hpp b/include/sharg/enumeration_names.hpp
index 0c5baac..543764b 100644
--- a/include/sharg/enumeration_names.hpp
+++ b/include/sharg/enumeration_names.hpp
@@ -251,7 +251,7 @@ template <typename option_type>
     requires sharg::named_enumeration<remove_cvref_t<option_type>>
 inline ostream & operator<<(ostream & s, option_type && op)
 {
-    for (auto & [key, value] : sharg::enumeration_names<option_type>)
+    for (auto & [key, value] : sharg::enumeration_names<remove_cvref_t<option_type>>)
     {
         if (op == value)
             return s << key;
-- 
2.43.0


From 360a0a86646041a984dac1c7eb4b715ed0051ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:08 +0000
Subject: [PATCH 41/45] fix: the output directory validator removes a directory
 it cannot read

With a umask that hides new directories from their owner, the directory that was created to check the
permissions could not be removed recursively: it remained, and the path was rejected.
---
 include/sharg/detail/safe_filesystem_entry.hpp | 6 ++++--
 include/sharg/validators.hpp                   | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/sharg/detail/safe_filesystem_entry.hpp b/include/sharg/detail/safe_filesystem_entry.hpp
index d4fa435..43f06e7 100644
--- a/include/sharg/detail/safe_filesystem_entry.hpp
+++ b/include/sharg/detail/safe_filesystem_entry.hpp
@@ -50,11 +50,13 @@ public:
     safe_filesystem_entry(std::filesystem::path p) : entry(std::move(p))
     {}
 
-    //!\brief Calls std::filesystem::remove_all on the wrapped entry.
+    //!\brief Removes the wrapped entry; directories are removed recursively.
     ~safe_filesystem_entry()
     {
         std::error_code ec;
-        std::filesystem::remove_all(entry, ec);
+        // An empty directory that must not be read can only be removed without iterating over its content.
+        if (!remove_no_throw())
+            std::filesystem::remove_all(entry, ec);
 
         assert(!static_cast<bool>(ec));
     }
diff --git a/include/sharg/validators.hpp b/include/sharg/validators.hpp
index 6ec48d2..8aa8330 100644
--- a/include/sharg/validators.hpp
+++ b/include/sharg/validators.hpp
@@ -983,7 +983,7 @@ public:
             {
                 sharg::detail::safe_filesystem_entry dir_guard{dir};
                 validate_writeability(detail::unused_file_path(dir));
-                dir_guard.remove_all();
+                dir_guard.remove();
             }
             else
             {
-- 
2.43.0


From a9d41e6ddc7d21c9c03189085ef1651f9f93be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:11 +0000
Subject: [PATCH 42/45] fix: tool descriptions contain quoted paths as values

---
 include/sharg/detail/format_tdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 418ae3a..8a1af42 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -187,7 +187,7 @@ public:
         }
         if constexpr (std::same_as<std::filesystem::path, option_type>)
         {
-            auto valueAsStr = to_string(value);
+            auto valueAsStr = value.string();
             store_help_page_element(
                 [this, config, description, valueAsStr, _tags = tags](std::string_view)
                 {
-- 
2.43.0


From 6072bc65986e04ddb51e47707d566bfc2cc325ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 43/45] fix: tool descriptions do not tell advanced flags

---
 include/sharg/detail/format_tdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 8a1af42..740c5e2 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -253,7 +253,7 @@ public:
                 parameters.push_back(tdl::Node{
                     .name = config.long_id,
                     .description = config.description,
-                    .tags = {},
+                    .tags = config.advanced ? std::set<std::string>{"advanced"} : std::set<std::string>{},
                     .value = to_tdl(value),
                 });
             },
-- 
2.43.0


From 907e78e89b30be0b7b3aa37bdf3abb3629866a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 44/45] fix: tool descriptions describe lists, enumerations and
 characters as booleans or numbers

---
 include/sharg/detail/format_tdl.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 740c5e2..85b0d74 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -89,9 +89,18 @@ inline auto to_tdl(std::string const & v)
 }
 
 //!\copydetails sharg::detail::to_tdl
-auto to_tdl(auto SHARG_DOXYGEN_ONLY(v))
+inline auto to_tdl(char v)
 {
-    return tdl::BoolValue(false);
+    return tdl::StringValue(std::string(1, v));
+}
+
+//!\copydetails sharg::detail::to_tdl
+auto to_tdl(auto v)
+{
+    if constexpr (is_container_option<decltype(v)>)
+        return tdl::StringValueList{};
+    else
+        return tdl::StringValue(to_string(v));
 }
 
 /*!\brief A generalized format to create different tool description files.
-- 
2.43.0


From d04dba8f6d8f151148ddda2cc3c577852103c0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 45/45] fix: tool descriptions do not name options without long
 identifier

---
 include/sharg/detail/format_tdl.hpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/sharg/detail/format_tdl.hpp b/include/sharg/detail/format_tdl.hpp
index 85b0d74..0465276 100644
--- a/include/sharg/detail/format_tdl.hpp
+++ b/include/sharg/detail/format_tdl.hpp
@@ -224,12 +224,12 @@ public:
                     }
 
                     parameters.push_back(tdl::Node{
-                        .name = config.long_id,
+                        .name = name_of(config),
                         .description = description,
                         .tags = std::move(tags),
                         .value = tdl::StringValue{valueAsStr},
                     });
-                    info.cliMapping.emplace_back("--" + config.long_id, config.long_id);
+                    info.cliMapping.emplace_back(identifier_of(config), name_of(config));
                 },
                 config);
         }
@@ -239,12 +239,12 @@ public:
                 [this, config, value, description, tags](std::string_view)
                 {
                     parameters.push_back(tdl::Node{
-                        .name = config.long_id,
+                        .name = name_of(config),
                         .description = description,
                         .tags = std::move(tags),
                         .value = to_tdl(value),
                     });
-                    info.cliMapping.emplace_back("--" + config.long_id, config.long_id);
+                    info.cliMapping.emplace_back(identifier_of(config), name_of(config));
                 },
                 config);
         }
@@ -260,7 +260,7 @@ public:
             [this, config, value](std::string_view)
             {
                 parameters.push_back(tdl::Node{
-                    .name = config.long_id,
+                    .name = name_of(config),
                     .description = config.description,
                     .tags = config.advanced ? std::set<std::string>{"advanced"} : std::set<std::string>{},
                     .value = to_tdl(value),
@@ -412,6 +412,25 @@ public:
     {}
 
 private:
+    /*!\brief Returns the name of the parameter for an option or flag.
+     * \param[in] config The specification of the option or flag.
+     * \returns The long identifier or, if there is none, the short identifier.
+     */
+    template <typename validator_t>
+    static std::string name_of(config<validator_t> const & config)
+    {
+        return config.long_id.empty() ? std::string(1, config.short_id) : config.long_id;
+    }
+
+    /*!\brief Returns the identifier of an option or flag as it is used on the command line.
+     * \param[in] config The specification of the option or flag.
+     */
+    template <typename validator_t>
+    static std::string identifier_of(config<validator_t> const & config)
+    {
+        return (config.long_id.empty() ? "-" : "--") + name_of(config);
+    }
+
     /*!\brief Adds a function object to parser_set_up_calls **if** the annotation in `spec` does not prevent it.
      * \param[in] printer The invokable that, if added to `parser_set_up_calls`, prints information to the help page.
      * \param[in] config The option specification deciding whether to add the information to the help page.
-- 
2.43.0

