# a module of rules, as given to Rebulk.rules()
from rebulk import Rule, CustomRule
from rebulk.rules import RemoveMatch

CONSTANT = [RemoveMatch]


def helper(matches):
    return list(matches)


class ModB(Rule):
    priority = 1
    consequence = RemoveMatch

    def when(self, matches, context):
        event("ran", "ModB")


class ModA(CustomRule):
    def when(self, matches, context):
        event("ran", "ModA")

    def then(self, matches, when_response, context):
        pass
