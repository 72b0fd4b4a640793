---- MODULE RunGroup ----
EXTENDS SimGroup
TheProfiles == <<"gmix", "gchat", "greplay", "gforge", "glimits", "grotate", "gcrash", "giso", "gids">>
====
