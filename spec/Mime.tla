-------------------------------- MODULE Mime --------------------------------
EXTENDS Naturals, Sequences
(* the media types registered for file name extensions (lower case, as bytes) *)
Mime == <<
  [x |-> ".323", b |-> <<46,51,50,51>>, t |-> "text/h323"],
  [x |-> ".*", b |-> <<46,42>>, t |-> "application/octet-stream"],
  [x |-> ".acx", b |-> <<46,97,99,120>>, t |-> "application/internet-property-stream"],
  [x |-> ".ai", b |-> <<46,97,105>>, t |-> "application/postscript"],
  [x |-> ".aif", b |-> <<46,97,105,102>>, t |-> "audio/x-aiff"],
  [x |-> ".aifc", b |-> <<46,97,105,102,99>>, t |-> "audio/x-aiff"],
  [x |-> ".aiff", b |-> <<46,97,105,102,102>>, t |-> "audio/x-aiff"],
  [x |-> ".asf", b |-> <<46,97,115,102>>, t |-> "video/x-ms-asf"],
  [x |-> ".asr", b |-> <<46,97,115,114>>, t |-> "video/x-ms-asf"],
  [x |-> ".asx", b |-> <<46,97,115,120>>, t |-> "video/x-ms-asf"],
  [x |-> ".au", b |-> <<46,97,117>>, t |-> "audio/basic"],
  [x |-> ".avi", b |-> <<46,97,118,105>>, t |-> "video/x-msvideo"],
  [x |-> ".axs", b |-> <<46,97,120,115>>, t |-> "application/olescript"],
  [x |-> ".bas", b |-> <<46,98,97,115>>, t |-> "text/plain"],
  [x |-> ".bcpio", b |-> <<46,98,99,112,105,111>>, t |-> "application/x-bcpio"],
  [x |-> ".bin", b |-> <<46,98,105,110>>, t |-> "application/octet-stream"],
  [x |-> ".bmp", b |-> <<46,98,109,112>>, t |-> "image/bmp"],
  [x |-> ".c", b |-> <<46,99>>, t |-> "text/plain"],
  [x |-> ".cat", b |-> <<46,99,97,116>>, t |-> "application/vnd.ms-pkiseccat"],
  [x |-> ".cbx", b |-> <<46,99,98,120>>, t |-> "application/colony-bundle"],
  [x |-> ".ccx", b |-> <<46,99,99,120>>, t |-> "application/colony-container"],
  [x |-> ".cdf", b |-> <<46,99,100,102>>, t |-> "application/x-netcdf"],
  [x |-> ".cer", b |-> <<46,99,101,114>>, t |-> "application/x-x509-ca-cert"],
  [x |-> ".class", b |-> <<46,99,108,97,115,115>>, t |-> "application/octet-stream"],
  [x |-> ".clp", b |-> <<46,99,108,112>>, t |-> "application/x-msclip"],
  [x |-> ".cmx", b |-> <<46,99,109,120>>, t |-> "image/x-cmx"],
  [x |-> ".cod", b |-> <<46,99,111,100>>, t |-> "image/cis-cod"],
  [x |-> ".cpio", b |-> <<46,99,112,105,111>>, t |-> "application/x-cpio"],
  [x |-> ".cpx", b |-> <<46,99,112,120>>, t |-> "application/colony-plugin"],
  [x |-> ".crd", b |-> <<46,99,114,100>>, t |-> "application/x-mscardfile"],
  [x |-> ".crl", b |-> <<46,99,114,108>>, t |-> "application/pkix-crl"],
  [x |-> ".crt", b |-> <<46,99,114,116>>, t |-> "application/x-x509-ca-cert"],
  [x |-> ".csh", b |-> <<46,99,115,104>>, t |-> "application/x-csh"],
  [x |-> ".css", b |-> <<46,99,115,115>>, t |-> "text/css"],
  [x |-> ".dcr", b |-> <<46,100,99,114>>, t |-> "application/x-director"],
  [x |-> ".der", b |-> <<46,100,101,114>>, t |-> "application/x-x509-ca-cert"],
  [x |-> ".dir", b |-> <<46,100,105,114>>, t |-> "application/x-director"],
  [x |-> ".dll", b |-> <<46,100,108,108>>, t |-> "application/x-msdownload"],
  [x |-> ".dms", b |-> <<46,100,109,115>>, t |-> "application/octet-stream"],
  [x |-> ".doc", b |-> <<46,100,111,99>>, t |-> "application/msword"],
  [x |-> ".dot", b |-> <<46,100,111,116>>, t |-> "application/msword"],
  [x |-> ".dvi", b |-> <<46,100,118,105>>, t |-> "application/x-dvi"],
  [x |-> ".dxr", b |-> <<46,100,120,114>>, t |-> "application/x-director"],
  [x |-> ".eps", b |-> <<46,101,112,115>>, t |-> "application/postscript"],
  [x |-> ".etx", b |-> <<46,101,116,120>>, t |-> "text/x-setext"],
  [x |-> ".evy", b |-> <<46,101,118,121>>, t |-> "application/envoy"],
  [x |-> ".exe", b |-> <<46,101,120,101>>, t |-> "application/octet-stream"],
  [x |-> ".fif", b |-> <<46,102,105,102>>, t |-> "application/fractals"],
  [x |-> ".flac", b |-> <<46,102,108,97,99>>, t |-> "audio/x-flac"],
  [x |-> ".flr", b |-> <<46,102,108,114>>, t |-> "x-world/x-vrml"],
  [x |-> ".gif", b |-> <<46,103,105,102>>, t |-> "image/gif"],
  [x |-> ".gtar", b |-> <<46,103,116,97,114>>, t |-> "application/x-gtar"],
  [x |-> ".gz", b |-> <<46,103,122>>, t |-> "application/x-gzip"],
  [x |-> ".h", b |-> <<46,104>>, t |-> "text/plain"],
  [x |-> ".hdf", b |-> <<46,104,100,102>>, t |-> "application/x-hdf"],
  [x |-> ".hlp", b |-> <<46,104,108,112>>, t |-> "application/winhlp"],
  [x |-> ".hqx", b |-> <<46,104,113,120>>, t |-> "application/mac-binhex40"],
  [x |-> ".hta", b |-> <<46,104,116,97>>, t |-> "application/hta"],
  [x |-> ".htc", b |-> <<46,104,116,99>>, t |-> "text/x-component"],
  [x |-> ".htm", b |-> <<46,104,116,109>>, t |-> "text/html"],
  [x |-> ".html", b |-> <<46,104,116,109,108>>, t |-> "text/html"],
  [x |-> ".htt", b |-> <<46,104,116,116>>, t |-> "text/webviewhtml"],
  [x |-> ".ico", b |-> <<46,105,99,111>>, t |-> "image/x-icon"],
  [x |-> ".ief", b |-> <<46,105,101,102>>, t |-> "image/ief"],
  [x |-> ".iii", b |-> <<46,105,105,105>>, t |-> "application/x-iphone"],
  [x |-> ".ins", b |-> <<46,105,110,115>>, t |-> "application/x-internet-signup"],
  [x |-> ".isp", b |-> <<46,105,115,112>>, t |-> "application/x-internet-signup"],
  [x |-> ".jfif", b |-> <<46,106,102,105,102>>, t |-> "image/pipeg"],
  [x |-> ".jpe", b |-> <<46,106,112,101>>, t |-> "image/jpeg"],
  [x |-> ".jpeg", b |-> <<46,106,112,101,103>>, t |-> "image/jpeg"],
  [x |-> ".jpg", b |-> <<46,106,112,103>>, t |-> "image/jpeg"],
  [x |-> ".js", b |-> <<46,106,115>>, t |-> "application/x-javascript"],
  [x |-> ".json", b |-> <<46,106,115,111,110>>, t |-> "application/json"],
  [x |-> ".latex", b |-> <<46,108,97,116,101,120>>, t |-> "application/x-latex"],
  [x |-> ".lha", b |-> <<46,108,104,97>>, t |-> "application/octet-stream"],
  [x |-> ".lsf", b |-> <<46,108,115,102>>, t |-> "video/x-la-asf"],
  [x |-> ".lsx", b |-> <<46,108,115,120>>, t |-> "video/x-la-asf"],
  [x |-> ".lzh", b |-> <<46,108,122,104>>, t |-> "application/octet-stream"],
  [x |-> ".m13", b |-> <<46,109,49,51>>, t |-> "application/x-msmediaview"],
  [x |-> ".m14", b |-> <<46,109,49,52>>, t |-> "application/x-msmediaview"],
  [x |-> ".m3u", b |-> <<46,109,51,117>>, t |-> "audio/x-mpegurl"],
  [x |-> ".m4a", b |-> <<46,109,52,97>>, t |-> "audio/mp4"],
  [x |-> ".man", b |-> <<46,109,97,110>>, t |-> "application/x-troff-man"],
  [x |-> ".mdb", b |-> <<46,109,100,98>>, t |-> "application/x-msaccess"],
  [x |-> ".me", b |-> <<46,109,101>>, t |-> "application/x-troff-me"],
  [x |-> ".mht", b |-> <<46,109,104,116>>, t |-> "message/rfc822"],
  [x |-> ".mhtml", b |-> <<46,109,104,116,109,108>>, t |-> "message/rfc822"],
  [x |-> ".mid", b |-> <<46,109,105,100>>, t |-> "audio/mid"],
  [x |-> ".mka", b |-> <<46,109,107,97>>, t |-> "audio/x-matroska"],
  [x |-> ".mkv", b |-> <<46,109,107,118>>, t |-> "video/x-matroska"],
  [x |-> ".mny", b |-> <<46,109,110,121>>, t |-> "application/x-msmoney"],
  [x |-> ".mov", b |-> <<46,109,111,118>>, t |-> "video/quicktime"],
  [x |-> ".movie", b |-> <<46,109,111,118,105,101>>, t |-> "video/x-sgi-movie"],
  [x |-> ".mp2", b |-> <<46,109,112,50>>, t |-> "video/mpeg"],
  [x |-> ".mp3", b |-> <<46,109,112,51>>, t |-> "audio/mpeg"],
  [x |-> ".mp4", b |-> <<46,109,112,52>>, t |-> "video/mp4"],
  [x |-> ".mpa", b |-> <<46,109,112,97>>, t |-> "video/mpeg"],
  [x |-> ".mpe", b |-> <<46,109,112,101>>, t |-> "video/mpeg"],
  [x |-> ".mpeg", b |-> <<46,109,112,101,103>>, t |-> "video/mpeg"],
  [x |-> ".mpg", b |-> <<46,109,112,103>>, t |-> "video/mpeg"],
  [x |-> ".mpp", b |-> <<46,109,112,112>>, t |-> "application/vnd.ms-project"],
  [x |-> ".mpv2", b |-> <<46,109,112,118,50>>, t |-> "video/mpeg"],
  [x |-> ".ms", b |-> <<46,109,115>>, t |-> "application/x-troff-ms"],
  [x |-> ".msg", b |-> <<46,109,115,103>>, t |-> "application/vnd.ms-outlook"],
  [x |-> ".mvb", b |-> <<46,109,118,98>>, t |-> "application/x-msmediaview"],
  [x |-> ".nc", b |-> <<46,110,99>>, t |-> "application/x-netcdf"],
  [x |-> ".nws", b |-> <<46,110,119,115>>, t |-> "message/rfc822"],
  [x |-> ".oda", b |-> <<46,111,100,97>>, t |-> "application/oda"],
  [x |-> ".odf", b |-> <<46,111,100,102>>, t |-> "font/opentype"],
  [x |-> ".ogg", b |-> <<46,111,103,103>>, t |-> "audio/ogg"],
  [x |-> ".p10", b |-> <<46,112,49,48>>, t |-> "application/pkcs10"],
  [x |-> ".p12", b |-> <<46,112,49,50>>, t |-> "application/x-pkcs12"],
  [x |-> ".p7b", b |-> <<46,112,55,98>>, t |-> "application/x-pkcs7-certificates"],
  [x |-> ".p7c", b |-> <<46,112,55,99>>, t |-> "application/x-pkcs7-mime"],
  [x |-> ".p7m", b |-> <<46,112,55,109>>, t |-> "application/x-pkcs7-mime"],
  [x |-> ".p7r", b |-> <<46,112,55,114>>, t |-> "application/x-pkcs7-certreqresp"],
  [x |-> ".p7s", b |-> <<46,112,55,115>>, t |-> "application/x-pkcs7-signature"],
  [x |-> ".pbm", b |-> <<46,112,98,109>>, t |-> "image/x-portable-bitmap"],
  [x |-> ".pdf", b |-> <<46,112,100,102>>, t |-> "application/pdf"],
  [x |-> ".pfx", b |-> <<46,112,102,120>>, t |-> "application/x-pkcs12"],
  [x |-> ".pgm", b |-> <<46,112,103,109>>, t |-> "image/x-portable-graymap"],
  [x |-> ".pko", b |-> <<46,112,107,111>>, t |-> "application/ynd.ms-pkipko"],
  [x |-> ".pma", b |-> <<46,112,109,97>>, t |-> "application/x-perfmon"],
  [x |-> ".pmc", b |-> <<46,112,109,99>>, t |-> "application/x-perfmon"],
  [x |-> ".pml", b |-> <<46,112,109,108>>, t |-> "application/x-perfmon"],
  [x |-> ".pmr", b |-> <<46,112,109,114>>, t |-> "application/x-perfmon"],
  [x |-> ".pmw", b |-> <<46,112,109,119>>, t |-> "application/x-perfmon"],
  [x |-> ".png", b |-> <<46,112,110,103>>, t |-> "image/png"],
  [x |-> ".pnm", b |-> <<46,112,110,109>>, t |-> "image/x-portable-anymap"],
  [x |-> ".pot", b |-> <<46,112,111,116>>, t |-> "application/vnd.ms-powerpoint"],
  [x |-> ".ppm", b |-> <<46,112,112,109>>, t |-> "image/x-portable-pixmap"],
  [x |-> ".pps", b |-> <<46,112,112,115>>, t |-> "application/vnd.ms-powerpoint"],
  [x |-> ".ppt", b |-> <<46,112,112,116>>, t |-> "application/vnd.ms-powerpoint"],
  [x |-> ".prf", b |-> <<46,112,114,102>>, t |-> "application/pics-rules"],
  [x |-> ".ps", b |-> <<46,112,115>>, t |-> "application/postscript"],
  [x |-> ".pub", b |-> <<46,112,117,98>>, t |-> "application/x-mspublisher"],
  [x |-> ".qt", b |-> <<46,113,116>>, t |-> "video/quicktime"],
  [x |-> ".ra", b |-> <<46,114,97>>, t |-> "audio/x-pn-realaudio"],
  [x |-> ".ram", b |-> <<46,114,97,109>>, t |-> "audio/x-pn-realaudio"],
  [x |-> ".ras", b |-> <<46,114,97,115>>, t |-> "image/x-cmu-raster"],
  [x |-> ".rgb", b |-> <<46,114,103,98>>, t |-> "image/x-rgb"],
  [x |-> ".rmi", b |-> <<46,114,109,105>>, t |-> "audio/mid"],
  [x |-> ".roff", b |-> <<46,114,111,102,102>>, t |-> "application/x-troff"],
  [x |-> ".rtf", b |-> <<46,114,116,102>>, t |-> "application/rtf"],
  [x |-> ".rtx", b |-> <<46,114,116,120>>, t |-> "text/richtext"],
  [x |-> ".scd", b |-> <<46,115,99,100>>, t |-> "application/x-msschedule"],
  [x |-> ".sct", b |-> <<46,115,99,116>>, t |-> "text/scriptlet"],
  [x |-> ".setpay", b |-> <<46,115,101,116,112,97,121>>, t |-> "application/set-payment-initiation"],
  [x |-> ".setreg", b |-> <<46,115,101,116,114,101,103>>, t |-> "application/set-registration-initiation"],
  [x |-> ".sh", b |-> <<46,115,104>>, t |-> "application/x-sh"],
  [x |-> ".shar", b |-> <<46,115,104,97,114>>, t |-> "application/x-shar"],
  [x |-> ".sit", b |-> <<46,115,105,116>>, t |-> "application/x-stuffit"],
  [x |-> ".snd", b |-> <<46,115,110,100>>, t |-> "audio/basic"],
  [x |-> ".spc", b |-> <<46,115,112,99>>, t |-> "application/x-pkcs7-certificates"],
  [x |-> ".spl", b |-> <<46,115,112,108>>, t |-> "application/futuresplash"],
  [x |-> ".src", b |-> <<46,115,114,99>>, t |-> "application/x-wais-source"],
  [x |-> ".sst", b |-> <<46,115,115,116>>, t |-> "application/vnd.ms-pkicertstore"],
  [x |-> ".stl", b |-> <<46,115,116,108>>, t |-> "application/vnd.ms-pkistl"],
  [x |-> ".stm", b |-> <<46,115,116,109>>, t |-> "text/html"],
  [x |-> ".sv4cpio", b |-> <<46,115,118,52,99,112,105,111>>, t |-> "application/x-sv4cpio"],
  [x |-> ".sv4crc", b |-> <<46,115,118,52,99,114,99>>, t |-> "application/x-sv4crc"],
  [x |-> ".svg", b |-> <<46,115,118,103>>, t |-> "image/svg+xml"],
  [x |-> ".swf", b |-> <<46,115,119,102>>, t |-> "application/x-shockwave-flash"],
  [x |-> ".t", b |-> <<46,116>>, t |-> "application/x-troff"],
  [x |-> ".tar", b |-> <<46,116,97,114>>, t |-> "application/x-tar"],
  [x |-> ".tcl", b |-> <<46,116,99,108>>, t |-> "application/x-tcl"],
  [x |-> ".tex", b |-> <<46,116,101,120>>, t |-> "application/x-tex"],
  [x |-> ".texi", b |-> <<46,116,101,120,105>>, t |-> "application/x-texinfo"],
  [x |-> ".texinfo", b |-> <<46,116,101,120,105,110,102,111>>, t |-> "application/x-texinfo"],
  [x |-> ".tgz", b |-> <<46,116,103,122>>, t |-> "application/x-compressed"],
  [x |-> ".tif", b |-> <<46,116,105,102>>, t |-> "image/tiff"],
  [x |-> ".tiff", b |-> <<46,116,105,102,102>>, t |-> "image/tiff"],
  [x |-> ".tr", b |-> <<46,116,114>>, t |-> "application/x-troff"],
  [x |-> ".trm", b |-> <<46,116,114,109>>, t |-> "application/x-msterminal"],
  [x |-> ".tsv", b |-> <<46,116,115,118>>, t |-> "text/tab-separated-values"],
  [x |-> ".ttf", b |-> <<46,116,116,102>>, t |-> "application/x-font-ttf"],
  [x |-> ".txt", b |-> <<46,116,120,116>>, t |-> "text/plain"],
  [x |-> ".uls", b |-> <<46,117,108,115>>, t |-> "text/iuls"],
  [x |-> ".ustar", b |-> <<46,117,115,116,97,114>>, t |-> "application/x-ustar"],
  [x |-> ".vcf", b |-> <<46,118,99,102>>, t |-> "text/x-vcard"],
  [x |-> ".vrml", b |-> <<46,118,114,109,108>>, t |-> "x-world/x-vrml"],
  [x |-> ".wav", b |-> <<46,119,97,118>>, t |-> "audio/x-wav"],
  [x |-> ".wcm", b |-> <<46,119,99,109>>, t |-> "application/vnd.ms-works"],
  [x |-> ".wdb", b |-> <<46,119,100,98>>, t |-> "application/vnd.ms-works"],
  [x |-> ".weba", b |-> <<46,119,101,98,97>>, t |-> "audio/webm"],
  [x |-> ".webm", b |-> <<46,119,101,98,109>>, t |-> "video/webm"],
  [x |-> ".wks", b |-> <<46,119,107,115>>, t |-> "application/vnd.ms-works"],
  [x |-> ".wmf", b |-> <<46,119,109,102>>, t |-> "application/x-msmetafile"],
  [x |-> ".wps", b |-> <<46,119,112,115>>, t |-> "application/vnd.ms-works"],
  [x |-> ".wri", b |-> <<46,119,114,105>>, t |-> "application/x-mswrite"],
  [x |-> ".wrl", b |-> <<46,119,114,108>>, t |-> "x-world/x-vrml"],
  [x |-> ".wrz", b |-> <<46,119,114,122>>, t |-> "x-world/x-vrml"],
  [x |-> ".xaf", b |-> <<46,120,97,102>>, t |-> "x-world/x-vrml"],
  [x |-> ".xbm", b |-> <<46,120,98,109>>, t |-> "image/x-xbitmap"],
  [x |-> ".xla", b |-> <<46,120,108,97>>, t |-> "application/vnd.ms-excel"],
  [x |-> ".xlc", b |-> <<46,120,108,99>>, t |-> "application/vnd.ms-excel"],
  [x |-> ".xlm", b |-> <<46,120,108,109>>, t |-> "application/vnd.ms-excel"],
  [x |-> ".xls", b |-> <<46,120,108,115>>, t |-> "application/vnd.ms-excel"],
  [x |-> ".xlt", b |-> <<46,120,108,116>>, t |-> "application/vnd.ms-excel"],
  [x |-> ".xlw", b |-> <<46,120,108,119>>, t |-> "application/vnd.ms-excel"],
  [x |-> ".xml", b |-> <<46,120,109,108>>, t |-> "application/xml"],
  [x |-> ".xof", b |-> <<46,120,111,102>>, t |-> "x-world/x-vrml"],
  [x |-> ".xpm", b |-> <<46,120,112,109>>, t |-> "image/x-xpixmap"],
  [x |-> ".xwd", b |-> <<46,120,119,100>>, t |-> "image/x-xwindowdump"],
  [x |-> ".z", b |-> <<46,122>>, t |-> "application/x-compress"],
  [x |-> ".zip", b |-> <<46,122,105,112>>, t |-> "application/zip"]
>>
MimeExts == {Mime[i].b : i \in 1..Len(Mime)}
MimeMap == [b \in MimeExts |-> Mime[CHOOSE i \in 1..Len(Mime) : Mime[i].b = b].t]
=============================================================================
