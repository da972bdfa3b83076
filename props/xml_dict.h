// Pieces of XML text to put documents together from.
#pragma once
#include <string>
#include <vector>
static const std::vector<std::string> DICT = {
  "<", ">", "/>", "</", "<a>", "</a>", "<b c='d'>", "<b c=\"d\"/>", "<a ", "</a ", "=", "'", "\"", " x='y'", "&", "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", ";",
  "&#65;", "&#x41;", "&#xe9;", "&#x20ac;", "&#x1F600;", "&#0;", "&#-5;", "&#x7fffffff;", "&#99999999999;", "&#", "&#x", "&e;", "&f;", "%e;", "%f;", "&e", "%",
  "<!--", "-->", "--", "<![CDATA[", "]]>", "]]", "<?xml version='1.0' standalone='yes'?>", "<?pi data?>", "<?pi", "?>", "<?>", "??>", "<?xml standalone",
  "<!DOCTYPE a [", "]>", "]", "[", "<!DOCTYPE a>", "<!DOCTYPE", "<!ENTITY e \"\">", "<!ENTITY e 'v'>", "<!ENTITY f '&e;&e;'>", "<!ENTITY % e 'v'>", "<!ENTITY f '%e;'>", "<!ENTITY e SYSTEM 'x'>", "<!ENTITY ", "<!ENTITY % ",
  "<!ATTLIST a x CDATA 'v'>", "<!ATTLIST b c NMTOKENS ' p  q '>", "<!ATTLIST a y (p|q) #IMPLIED>", "<!ATTLIST a z CDATA #FIXED 'w'>", "<!ATTLIST ", "NOTATION", "CDATA ", "#REQUIRED", "#FIXED ", "(", ")",
  "<rdf:Bag>", "</rdf:Bag>", "<rdf:Seq/>", "text", " ", "\n", "\r\n", "\r", "\t", "\xc3\xa9", "\xff\xfe", "\xfe\xff", "a", "b", ":", "_", "<_x:y/>"};
