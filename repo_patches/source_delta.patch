From 241860dbceefa1ecf6acdde58f2775698bdca50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 01/14] fix: ask the word node, not the trie children, whether
 a character has words

---
 internal/concrete/character/entity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/concrete/character/entity.go b/internal/concrete/character/entity.go
index 3f415c8..5c08317 100644
--- a/internal/concrete/character/entity.go
+++ b/internal/concrete/character/entity.go
@@ -102,7 +102,7 @@ func (e Entity) MarkWord(sourceIdentifier uint) error {
 
 func (e Entity) HasTargetWord() (bool, error) {
 
-	targets, err := e.storage.ReadTargets(e.character)
+	targets, err := e.storage.ReadTargets(e.word)
 	if err != nil {
 		return false, err
 	}
@@ -113,7 +113,7 @@ func (e Entity) HasTargetWord() (bool, error) {
 	case 1:
 		return true, nil
 	default:
-		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.character)
+		return false, fmt.Errorf("character has wrong number of target words: %d at %d", len(targets), e.word)
 	}
 }
 
-- 
2.43.0


From b3df55fa68221fb7f598c9fcec558f870af824e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 02/14] fix: stop storing text at the first element that fails

---
 internal/concrete/character/repository.go | 3 +++
 internal/concrete/phrase/repository.go    | 3 +++
 internal/concrete/word/repository.go      | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/internal/concrete/character/repository.go b/internal/concrete/character/repository.go
index ec0a55a..6b9ec43 100644
--- a/internal/concrete/character/repository.go
+++ b/internal/concrete/character/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(integer rune) (abstractCharacter.Aggregate, error)
 	for _, bitValue := range path[1:] {
 
 		characterElement, err = characterElement.ProvideNextElement(bitValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/phrase/repository.go b/internal/concrete/phrase/repository.go
index 51584c9..33a9a2a 100644
--- a/internal/concrete/phrase/repository.go
+++ b/internal/concrete/phrase/repository.go
@@ -42,6 +42,9 @@ func (r *Repository) Provide(words string) (abstractPhrase.Aggregate, error) {
 	for _, wordValue := range path[1:] {
 
 		phraseElement, err = phraseElement.ProvideNextElement(wordValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
diff --git a/internal/concrete/word/repository.go b/internal/concrete/word/repository.go
index eb21950..316602f 100644
--- a/internal/concrete/word/repository.go
+++ b/internal/concrete/word/repository.go
@@ -46,6 +46,9 @@ func (r *Repository) Provide(word string) (abstractWord.Aggregate, error) {
 	for _, characterValue := range path[1:] {
 
 		wordElement, err = wordElement.ProvideNextElement(characterValue)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	return Aggregate{
-- 
2.43.0


From daa50d5fd1c6996d6625a9c865395841c6bacc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:11 +0000
Subject: [PATCH 03/14] fix: report errors that were dropped while reading

---
 internal/concrete/character/aggragate.go |  3 +++
 internal/concrete/character/elements.go  |  3 +++
 internal/concrete/detail/factory.go      |  3 +++
 internal/concrete/fact/aggregate.go      | 15 +++++++++++++++
 internal/concrete/phrase/aggregate.go    |  3 +++
 internal/concrete/remark/aggregate.go    |  3 +++
 internal/concrete/word/aggregate.go      |  3 +++
 7 files changed, 33 insertions(+)

diff --git a/internal/concrete/character/aggragate.go b/internal/concrete/character/aggragate.go
index 0a3910e..c9f24ad 100644
--- a/internal/concrete/character/aggragate.go
+++ b/internal/concrete/character/aggragate.go
@@ -54,6 +54,9 @@ func (a Aggregate) Extract() (rune, error) {
 		}
 
 		characterElement, err = characterElement.GetPreviousElement()
+		if err != nil {
+			return 0, err
+		}
 
 		bitValue, err := characterElement.ExtractBitValue()
 		if err != nil {
diff --git a/internal/concrete/character/elements.go b/internal/concrete/character/elements.go
index d88350a..c346197 100644
--- a/internal/concrete/character/elements.go
+++ b/internal/concrete/character/elements.go
@@ -43,6 +43,9 @@ func (e *Elements) ProvideFirstElement(bitValue bool) (abstractCharacter.Element
 	}
 
 	character, err := e.characterFactory.ProvideHeadEntity(class, firstBit)
+	if err != nil {
+		return nil, err
+	}
 
 	return Element{
 		character:        character,
diff --git a/internal/concrete/detail/factory.go b/internal/concrete/detail/factory.go
index 7412678..d817690 100644
--- a/internal/concrete/detail/factory.go
+++ b/internal/concrete/detail/factory.go
@@ -31,6 +31,9 @@ func (f *Factory) ProvideEntity(
 	}
 
 	propertySourceDetails, err := propertyPhrase.GetSourceDetails()
+	if err != nil {
+		return nil, err
+	}
 
 	commonDetailIdentifiers := make([]uint, 0, 1)
 
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index 798781f..b951c43 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -59,6 +59,9 @@ func (a Aggregate) GetFirstRemark() (uint, error) {
 func (a Aggregate) HasNextStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -71,6 +74,9 @@ func (a Aggregate) HasNextStory() (bool, error) {
 func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -106,6 +112,9 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) HasParentStory() (bool, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return false, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -118,6 +127,9 @@ func (a Aggregate) HasParentStory() (bool, error) {
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
@@ -153,6 +165,9 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	storyIdentifier, err := a.fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
 
 	story, err := a.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
diff --git a/internal/concrete/phrase/aggregate.go b/internal/concrete/phrase/aggregate.go
index 2c6519e..502e979 100644
--- a/internal/concrete/phrase/aggregate.go
+++ b/internal/concrete/phrase/aggregate.go
@@ -52,6 +52,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		phraseElement, err = phraseElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		wordValue, err := phraseElement.ExtractWordValue()
 		if err != nil {
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 02cc0cc..a60b2cd 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -35,6 +35,9 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 	}
 
 	nextRemark, err := a.remarkStorage.ReadEntityByPosition(nextRemarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
 
 	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
diff --git a/internal/concrete/word/aggregate.go b/internal/concrete/word/aggregate.go
index a10c393..c46929d 100644
--- a/internal/concrete/word/aggregate.go
+++ b/internal/concrete/word/aggregate.go
@@ -34,6 +34,9 @@ func (a Aggregate) Extract() (string, error) {
 		}
 
 		wordElement, err = wordElement.GetPreviousElement()
+		if err != nil {
+			return "", err
+		}
 
 		characterValue, err := wordElement.ExtractCharacterValue()
 		if err != nil {
-- 
2.43.0


From 27cce557f7019fcb69b27b0d9f623aded85968f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 04/14] fix: reject words that are not valid UTF-8 instead of
 storing them changed

---
 internal/concrete/word/paths.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/concrete/word/paths.go b/internal/concrete/word/paths.go
index df7c41e..0a2059c 100644
--- a/internal/concrete/word/paths.go
+++ b/internal/concrete/word/paths.go
@@ -2,6 +2,7 @@ package word
 
 import (
 	"fmt"
+	"unicode/utf8"
 )
 
 type paths struct{}
@@ -20,6 +21,10 @@ func (p *paths) create(start rune) path {
 
 func (p *paths) collect(word string) (path, error) {
 
+	if !utf8.ValidString(word) {
+		return path{}, fmt.Errorf("word is not valid UTF-8: %q", word)
+	}
+
 	path := []rune(word)
 
 	if len(path) < 1 {
-- 
2.43.0


From 28640c2a8849a8b013e7276cfc07ad870ddcf472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 05/14] fix: give a character read by its class a storage

---
 internal/concrete/character/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/concrete/character/storage.go b/internal/concrete/character/storage.go
index 251f279..e64f582 100644
--- a/internal/concrete/character/storage.go
+++ b/internal/concrete/character/storage.go
@@ -80,6 +80,7 @@ func (s *Storage) ReadEntityByClass(class uint) (abstractCharacter.Entity, error
 		bit:       bit,
 		character: character,
 		word:      word,
+		storage:   s.storage,
 	}, nil
 }
 
-- 
2.43.0


From ed17bdf6c07506b4e157ae0f9e507bed1b770264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 06/14] fix: find only remarks by identifier

---
 internal/concrete/remark/repository.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 60cc3d3..420205a 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -1,6 +1,7 @@
 package remark
 
 import (
+	"fmt"
 	"github.com/mem-memov/semnet/internal/abstract"
 	abstractClass "github.com/mem-memov/semnet/internal/abstract/class"
 	abstractDetail "github.com/mem-memov/semnet/internal/abstract/detail"
@@ -89,6 +90,20 @@ func (r *Repository) CreateFirstUserRemark(object string, property string) (abst
 
 func (r *Repository) GetRemark(remarkIdentifier uint) (abstractRemark.Aggregate, error) {
 
+	class, err := r.classRepository.ProvideEntity()
+	if err != nil {
+		return nil, err
+	}
+
+	isRemark, err := class.IsRemark(remarkIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	if !isRemark {
+		return nil, fmt.Errorf("not a remark: %d", remarkIdentifier)
+	}
+
 	remark, err := r.remarkStorage.ReadEntityByClass(remarkIdentifier)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 297efd0ec2fb5f310ff5371a62dedaf45b5895d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 07/14] fix: follow the links from a remark to its fact and
 from a fact to its story

---
 internal/concrete/fact/aggregate.go   |  4 +++
 internal/concrete/fact/repository.go  | 14 ++++++--
 internal/concrete/remark/aggregate.go | 47 +++++++++++++++++++++++----
 3 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b951c43..bae9977 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -47,6 +47,7 @@ func (a Aggregate) ToNextFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -105,6 +106,7 @@ func (a Aggregate) ToNextStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            nextFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -158,6 +160,7 @@ func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            parentFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
@@ -186,6 +189,7 @@ func (a Aggregate) ToFirstFact() (abstractFact.Aggregate, error) {
 
 	return Aggregate{
 		fact:            firstFact,
+		factStorage:     a.factStorage,
 		storyRepository: a.storyRepository,
 	}, nil
 }
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 5304dc9..9284895 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -87,7 +87,12 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -131,7 +136,12 @@ func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.A
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(fact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
+	if err != nil {
+		return nil, err
+	}
+
+	story, err := r.storyRepository.FetchByFact(storyIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a60b2cd..a4fb3e8 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -64,7 +64,12 @@ func (a Aggregate) GetNextRemark() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextFact() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -74,7 +79,12 @@ func (a Aggregate) HasNextFact() (bool, error) {
 
 func (a Aggregate) GetNextFact() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -142,7 +152,12 @@ func (a Aggregate) GetFirstFact() (abstractRemark.Aggregate, error) {
 
 func (a Aggregate) HasNextStory() (bool, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return false, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return false, err
 	}
@@ -152,7 +167,12 @@ func (a Aggregate) HasNextStory() (bool, error) {
 
 func (a Aggregate) GetNextStory() (abstractRemark.Aggregate, error) {
 
-	fact, err := a.factRepository.FetchByRemark(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	fact, err := a.factRepository.FetchByRemark(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -297,7 +317,12 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 	// fact
 
-	nextFact, err := a.factRepository.CreateNextFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	nextFact, err := a.factRepository.CreateNextFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -307,6 +332,11 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = nextFact.PointToRemark(remark.GetFact())
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
@@ -347,7 +377,12 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 
 	// fact
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(a.remark.GetFact())
+	factIdentifier, err := a.remark.GetTargetFact()
+	if err != nil {
+		return nil, err
+	}
+
+	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 5ac7e4fa622b1efbdc0c369f67d90efdbaa9f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:17 +0000
Subject: [PATCH 08/14] fix: append a fact after the last one of its story once
 it is complete

---
 internal/abstract/fact/aggregate.go   |  1 +
 internal/abstract/fact/repository.go  |  1 +
 internal/concrete/fact/aggregate.go   |  5 ++++
 internal/concrete/fact/repository.go  | 36 +++++++++++++++++++++++----
 internal/concrete/remark/aggregate.go |  5 ++++
 5 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/internal/abstract/fact/aggregate.go b/internal/abstract/fact/aggregate.go
index 9b4cc0b..4a184b9 100644
--- a/internal/abstract/fact/aggregate.go
+++ b/internal/abstract/fact/aggregate.go
@@ -2,6 +2,7 @@ package fact
 
 type Aggregate interface {
 	GetRemark() uint
+	GetPosition() uint
 	GetStory() uint
 	PointToRemark(remark uint) error
 	HasNextFact() (bool, error)
diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index cf82db6..de1fd19 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -4,5 +4,6 @@ type Repository interface {
 	CreateFirstStoryFact() (Aggregate, error)
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
+	AppendFact(remarkIdentifier uint, nextFact Aggregate) error
 	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
 }
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index bae9977..b110cdb 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -18,6 +18,11 @@ func (a Aggregate) GetRemark() uint {
 	return a.fact.GetRemark()
 }
 
+func (a Aggregate) GetPosition() uint {
+
+	return a.fact.GetPosition()
+}
+
 func (a Aggregate) GetStory() uint {
 
 	return a.fact.GetStory()
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 9284895..8d9dc43 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -117,11 +117,6 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 		return nil, err
 	}
 
-	err = fact.PointToPosition(nextFact.GetPosition())
-	if err != nil {
-		return nil, err
-	}
-
 	return Aggregate{
 		fact:            nextFact,
 		factStorage:     r.factStorage,
@@ -129,6 +124,37 @@ func (r *Repository) CreateNextFact(remarkIdentifier uint) (abstractFact.Aggrega
 	}, nil
 }
 
+func (r *Repository) AppendFact(remarkIdentifier uint, nextFact abstractFact.Aggregate) error {
+
+	lastFact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
+	if err != nil {
+		return err
+	}
+
+	for {
+		hasTargetFact, err := lastFact.HasTargetFact()
+		if err != nil {
+			return err
+		}
+
+		if !hasTargetFact {
+			break
+		}
+
+		targetFact, err := lastFact.GetTargetFact()
+		if err != nil {
+			return err
+		}
+
+		lastFact, err = r.factStorage.ReadEntityByPosition(targetFact)
+		if err != nil {
+			return err
+		}
+	}
+
+	return lastFact.PointToPosition(nextFact.GetPosition())
+}
+
 func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
 
 	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index a4fb3e8..6e03f39 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -337,6 +337,11 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 		return nil, err
 	}
 
+	err = a.factRepository.AppendFact(factIdentifier, nextFact)
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
-- 
2.43.0


From 5aaf1913871432c0c92ac286a7bfa46c6b7c6012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:08 +0000
Subject: [PATCH 09/14] fix: list child stories of a story in the order they
 were created

---
 internal/abstract/fact/repository.go  |   3 +-
 internal/abstract/story/entity.go     |   1 +
 internal/concrete/fact/aggregate.go   |   2 +-
 internal/concrete/fact/repository.go  | 122 ++++++++++++++------------
 internal/concrete/remark/aggregate.go |   7 +-
 internal/concrete/story/entity.go     |   5 ++
 6 files changed, 82 insertions(+), 58 deletions(-)

diff --git a/internal/abstract/fact/repository.go b/internal/abstract/fact/repository.go
index de1fd19..fc583e8 100644
--- a/internal/abstract/fact/repository.go
+++ b/internal/abstract/fact/repository.go
@@ -5,5 +5,6 @@ type Repository interface {
 	FetchByRemark(remarkIdentifier uint) (Aggregate, error)
 	CreateNextFact(remarkIdentifier uint) (Aggregate, error)
 	AppendFact(remarkIdentifier uint, nextFact Aggregate) error
-	CreateChildStoryFact(remarkIdentifier uint) (Aggregate, error)
+	CreateChildStoryFact() (Aggregate, error)
+	AppendChildStory(remarkIdentifier uint, firstFact Aggregate) error
 }
diff --git a/internal/abstract/story/entity.go b/internal/abstract/story/entity.go
index 6458a73..6eff4e2 100644
--- a/internal/abstract/story/entity.go
+++ b/internal/abstract/story/entity.go
@@ -20,4 +20,5 @@ type Entity interface {
 
 	HasSourceTree() (bool, error)
 	GetSourceTree() (uint, error)
+	GetSourceTrees() ([]uint, error)
 }
diff --git a/internal/concrete/fact/aggregate.go b/internal/concrete/fact/aggregate.go
index b110cdb..fac743d 100644
--- a/internal/concrete/fact/aggregate.go
+++ b/internal/concrete/fact/aggregate.go
@@ -128,7 +128,7 @@ func (a Aggregate) HasParentStory() (bool, error) {
 		return false, err
 	}
 
-	return story.HasSourceTree()
+	return story.HasTargetTree()
 }
 
 func (a Aggregate) ToParentStory() (abstractFact.Aggregate, error) {
diff --git a/internal/concrete/fact/repository.go b/internal/concrete/fact/repository.go
index 8d9dc43..a7ce854 100644
--- a/internal/concrete/fact/repository.go
+++ b/internal/concrete/fact/repository.go
@@ -155,110 +155,122 @@ func (r *Repository) AppendFact(remarkIdentifier uint, nextFact abstractFact.Agg
 	return lastFact.PointToPosition(nextFact.GetPosition())
 }
 
-func (r *Repository) CreateChildStoryFact(remarkIdentifier uint) (abstractFact.Aggregate, error) {
+func (r *Repository) CreateChildStoryFact() (abstractFact.Aggregate, error) {
 
-	fact, err := r.factStorage.ReadEntityByRemark(remarkIdentifier)
+	childStory, err := r.storyRepository.CreateStory()
 	if err != nil {
 		return nil, err
 	}
 
-	storyIdentifier, err := fact.GetTargetStory()
+	//
+
+	class, err := r.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	story, err := r.storyRepository.FetchByFact(storyIdentifier)
+	classIdentifier, err := class.CreateFact()
 	if err != nil {
 		return nil, err
 	}
 
-	hasTargetTree, err := story.HasTargetTree()
+	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	childStory, err := r.storyRepository.CreateStory()
+	err = firstFact.PointToStory(childStory.GetFact())
 	if err != nil {
 		return nil, err
 	}
 
-	err = childStory.PointToTree(story.GetTree())
+	err = childStory.PointToFact(firstFact.GetStory())
 	if err != nil {
 		return nil, err
 	}
 
-	if hasTargetTree {
+	//
+
+	return Aggregate{
+		fact:            firstFact,
+		factStorage:     r.factStorage,
+		storyRepository: r.storyRepository,
+	}, nil
+}
+
+func (r *Repository) AppendChildStory(remarkIdentifier uint, firstFact abstractFact.Aggregate) error {
+
+	story, err := r.fetchStory(r.factStorage.ReadEntityByRemark(remarkIdentifier))
+	if err != nil {
+		return err
+	}
+
+	childStory, err := r.fetchStory(r.factStorage.ReadEntityByStory(firstFact.GetStory()))
+	if err != nil {
+		return err
+	}
+
+	sourceTrees, err := story.GetSourceTrees()
+	if err != nil {
+		return err
+	}
+
+	if len(sourceTrees) == 0 {
+		return childStory.PointToTree(story.GetTree())
+	}
+
+	// the child that was linked to its parent before the others starts the list of siblings
+	firstTree := sourceTrees[0]
+	for _, sourceTree := range sourceTrees {
+		if sourceTree < firstTree {
+			firstTree = sourceTree
+		}
+	}
+
+	siblingStory, err := r.storyRepository.FetchByTree(firstTree)
+	if err != nil {
+		return err
+	}
 
-		siblingStory, err := r.storyRepository.FetchByTree(story.GetTree())
+	for {
+		hasTargetPosition, err := siblingStory.HasTargetPosition()
 		if err != nil {
-			return nil, err
+			return err
 		}
 
-		for {
-			hasTargetPosition, err := siblingStory.HasTargetPosition()
-			if err != nil {
-				return nil, err
-			}
-
-			if !hasTargetPosition {
-				break
-			}
-
-			targetPosition, err := siblingStory.GetTargetPosition()
-			if err != nil {
-				return nil, err
-			}
-
-			siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
-			if err != nil {
-				return nil, err
-			}
+		if !hasTargetPosition {
+			break
 		}
 
-		err = siblingStory.PointToPosition(childStory.GetPosition())
+		targetPosition, err := siblingStory.GetTargetPosition()
 		if err != nil {
-			return nil, err
+			return err
 		}
 
-		err = story.PointToTree(childStory.GetTree())
+		siblingStory, err = r.storyRepository.FetchByPosition(targetPosition)
 		if err != nil {
-			return nil, err
+			return err
 		}
-
 	}
 
-	//
-
-	class, err := r.classRepository.ProvideEntity()
+	err = childStory.PointToTree(story.GetTree())
 	if err != nil {
-		return nil, err
+		return err
 	}
 
-	classIdentifier, err := class.CreateFact()
-	if err != nil {
-		return nil, err
-	}
+	return siblingStory.PointToPosition(childStory.GetPosition())
+}
 
-	firstFact, err := r.factStorage.CreateEntity(classIdentifier)
-	if err != nil {
-		return nil, err
-	}
+func (r *Repository) fetchStory(fact abstractFact.Entity, err error) (abstractStory.Entity, error) {
 
-	err = firstFact.PointToStory(childStory.GetFact())
 	if err != nil {
 		return nil, err
 	}
 
-	err = childStory.PointToFact(firstFact.GetStory())
+	storyIdentifier, err := fact.GetTargetStory()
 	if err != nil {
 		return nil, err
 	}
 
-	//
-
-	return Aggregate{
-		fact:            firstFact,
-		factStorage:     r.factStorage,
-		storyRepository: r.storyRepository,
-	}, nil
+	return r.storyRepository.FetchByFact(storyIdentifier)
 }
diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 6e03f39..53a58ca 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -387,7 +387,7 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
-	firstFact, err := a.factRepository.CreateChildStoryFact(factIdentifier)
+	firstFact, err := a.factRepository.CreateChildStoryFact()
 	if err != nil {
 		return nil, err
 	}
@@ -402,6 +402,11 @@ func (a Aggregate) CreateChildStory(object string, property string) (abstractRem
 		return nil, err
 	}
 
+	err = a.factRepository.AppendChildStory(factIdentifier, firstFact)
+	if err != nil {
+		return nil, err
+	}
+
 	return Aggregate{
 		remark:           remark,
 		remarkStorage:    a.remarkStorage,
diff --git a/internal/concrete/story/entity.go b/internal/concrete/story/entity.go
index 0eb4685..7d05004 100644
--- a/internal/concrete/story/entity.go
+++ b/internal/concrete/story/entity.go
@@ -136,3 +136,8 @@ func (e Entity) GetSourceTree() (uint, error) {
 
 	return sources[0], nil
 }
+
+func (e Entity) GetSourceTrees() ([]uint, error) {
+
+	return e.storage.ReadSources(e.tree)
+}
-- 
2.43.0


From 85a9b8ac9973c28cb0b51450723b1c4b311968d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:35 +0000
Subject: [PATCH 10/14] fix: complete the class nodes when laying them down was
 cut short

---
 internal/concrete/class/repository.go | 118 +++++---------------------
 1 file changed, 21 insertions(+), 97 deletions(-)

diff --git a/internal/concrete/class/repository.go b/internal/concrete/class/repository.go
index 5222321..7331a8d 100644
--- a/internal/concrete/class/repository.go
+++ b/internal/concrete/class/repository.go
@@ -37,117 +37,39 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 
 	if !r.isInitialized {
 
-		hasFirstNode, err := r.storage.Has(1)
-		if err != nil {
-			return Entity{}, err
-		}
-
-		if !hasFirstNode {
-			result, err := r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != bitIdentifier {
-				return Entity{}, fmt.Errorf("wrong bit class node %d", result)
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != characterIdentifier {
-				return Entity{}, fmt.Errorf("wrong character class node %d", result)
-			}
-
-			err = r.storage.SetReference(bitIdentifier, characterIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != wordIdentifier {
-				return Entity{}, fmt.Errorf("wrong word class node %d", result)
-			}
+		// a node or a reference may be missing when an earlier attempt was cut short
+		for identifier := bitIdentifier; identifier <= storyIdentifier; identifier++ {
 
-			err = r.storage.SetReference(characterIdentifier, wordIdentifier)
+			hasNode, err := r.storage.Has(identifier)
 			if err != nil {
 				return Entity{}, err
 			}
 
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
+			if !hasNode {
+				result, err := r.storage.Create()
+				if err != nil {
+					return Entity{}, err
+				}
 
-			if result != phraseIdentifier {
-				return Entity{}, fmt.Errorf("wrong phrase class node %d", result)
+				if result != identifier {
+					return Entity{}, fmt.Errorf("wrong class node %d instead of %d", result, identifier)
+				}
 			}
 
-			err = r.storage.SetReference(wordIdentifier, phraseIdentifier)
-			if err != nil {
-				return Entity{}, err
+			if identifier == bitIdentifier {
+				continue
 			}
 
-			result, err = r.storage.Create()
+			_, reference, err := r.storage.GetReference(identifier - 1)
 			if err != nil {
 				return Entity{}, err
 			}
 
-			if result != detailIdentifier {
-				return Entity{}, fmt.Errorf("wrong detail class node %d", result)
-			}
-
-			err = r.storage.SetReference(phraseIdentifier, detailIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != remarkIdentifier {
-				return Entity{}, fmt.Errorf("wrong position class node %d", result)
-			}
-
-			err = r.storage.SetReference(detailIdentifier, remarkIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != factIdentifier {
-				return Entity{}, fmt.Errorf("wrong fact class node %d", result)
-			}
-
-			err = r.storage.SetReference(remarkIdentifier, factIdentifier)
-			if err != nil {
-				return Entity{}, err
-			}
-
-			result, err = r.storage.Create()
-			if err != nil {
-				return Entity{}, err
-			}
-
-			if result != storyIdentifier {
-				return Entity{}, fmt.Errorf("wrong story class node %d", result)
-			}
-
-			err = r.storage.SetReference(factIdentifier, storyIdentifier)
-			if err != nil {
-				return Entity{}, err
+			if reference != identifier {
+				err = r.storage.SetReference(identifier-1, identifier)
+				if err != nil {
+					return Entity{}, err
+				}
 			}
 		}
 
@@ -161,6 +83,8 @@ func (r *Repository) ProvideEntity() (class.Entity, error) {
 			node.NewFact(factIdentifier, r.storage),
 			node.NewStory(storyIdentifier, r.storage),
 		)
+
+		r.isInitialized = true
 	}
 
 	return r.entity, nil
-- 
2.43.0


From 39e99f5a4a5e667b4d4be70021efc6ddbe75d059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:51 +0000
Subject: [PATCH 11/14] fix: complete the two bits when creating them was cut
 short

---
 internal/concrete/bit/layer.go | 139 ++++++++++++---------------------
 1 file changed, 48 insertions(+), 91 deletions(-)

diff --git a/internal/concrete/bit/layer.go b/internal/concrete/bit/layer.go
index 0022055..4f0cf59 100644
--- a/internal/concrete/bit/layer.go
+++ b/internal/concrete/bit/layer.go
@@ -35,113 +35,70 @@ func (l *layer) initialize() (Entity, Entity, error) {
 			return Entity{}, Entity{}, err
 		}
 
-		switch len(classIdentifiers) {
-		case 0:
-			var classIdentifiers [2]uint
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
-
-			classIdentifiers[0], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			classIdentifiers[1], err = classEntity.CreateBit()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
-
-			// zero
-
-			zeroCharacterIdentifier, err := l.storage.Create()
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			err = l.storage.SetReference(zeroClassIdentifier, zeroCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
-
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
-
-			// one
+		if len(classIdentifiers) > 2 {
+			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+		}
 
-			oneCharacterIdentifier, err := l.storage.Create()
+		// nodes may be missing when an earlier attempt was cut short
+		for len(classIdentifiers) < 2 {
+			classIdentifier, err := classEntity.CreateBit()
 			if err != nil {
 				return Entity{}, Entity{}, err
 			}
 
-			err = l.storage.SetReference(oneClassIdentifier, oneCharacterIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+			classIdentifiers = append(classIdentifiers, classIdentifier)
+		}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
+		var zeroClassIdentifier uint
+		var oneClassIdentifier uint
 
-		case 2:
-			var zeroClassIdentifier uint
-			var oneClassIdentifier uint
+		if classIdentifiers[0] < classIdentifiers[1] {
+			zeroClassIdentifier = classIdentifiers[0]
+			oneClassIdentifier = classIdentifiers[1]
+		} else {
+			zeroClassIdentifier = classIdentifiers[1]
+			oneClassIdentifier = classIdentifiers[0]
+		}
 
-			if classIdentifiers[0] < classIdentifiers[1] {
-				zeroClassIdentifier = classIdentifiers[0]
-				oneClassIdentifier = classIdentifiers[1]
-			} else {
-				zeroClassIdentifier = classIdentifiers[1]
-				oneClassIdentifier = classIdentifiers[0]
-			}
+		l.zeroEntity, err = l.provideEntity(false, zeroClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			// zero
+		l.oneEntity, err = l.provideEntity(true, oneClassIdentifier)
+		if err != nil {
+			return Entity{}, Entity{}, err
+		}
 
-			_, zeroCharacterIdentifier, err := l.storage.GetReference(zeroClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+		l.isInitialized = true
+	}
 
-			l.zeroEntity = Entity{
-				value:     false,
-				class:     zeroClassIdentifier,
-				character: zeroCharacterIdentifier,
-				storage:   l.storage,
-			}
+	return l.zeroEntity, l.oneEntity, nil
+}
 
-			// one
+func (l *layer) provideEntity(value bool, classIdentifier uint) (Entity, error) {
 
-			_, oneCharacterIdentifier, err := l.storage.GetReference(oneClassIdentifier)
-			if err != nil {
-				return Entity{}, Entity{}, err
-			}
+	_, characterIdentifier, err := l.storage.GetReference(classIdentifier)
+	if err != nil {
+		return Entity{}, err
+	}
 
-			l.oneEntity = Entity{
-				value:     true,
-				class:     oneClassIdentifier,
-				character: oneCharacterIdentifier,
-				storage:   l.storage,
-			}
-		default:
-			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
+	if characterIdentifier == 0 {
+		characterIdentifier, err = l.storage.Create()
+		if err != nil {
+			return Entity{}, err
 		}
 
-		l.isInitialized = true
+		err = l.storage.SetReference(classIdentifier, characterIdentifier)
+		if err != nil {
+			return Entity{}, err
+		}
 	}
 
-	return l.zeroEntity, l.oneEntity, nil
+	return Entity{
+		value:     value,
+		class:     classIdentifier,
+		character: characterIdentifier,
+		storage:   l.storage,
+	}, nil
 }
-- 
2.43.0


From 1a4e81604b561fd8d6d5adc85e10f264cf4d9dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 12/14] fix: let phrases know a detail only once it is complete

---
 internal/concrete/detail/storage.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/concrete/detail/storage.go b/internal/concrete/detail/storage.go
index 9928fa8..2219483 100644
--- a/internal/concrete/detail/storage.go
+++ b/internal/concrete/detail/storage.go
@@ -35,27 +35,28 @@ func (s *Storage) CreateEntity(
 		return nil, err
 	}
 
-	err = objectPhrase.AddTargetDetail(phrase)
+	remark, err := s.storage.Create()
 	if err != nil {
 		return nil, err
 	}
 
-	err = propertyPhrase.AddSourceDetail(phrase)
+	err = s.storage.SetReference(class, phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := s.storage.Create()
+	err = s.storage.SetReference(phrase, remark)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(class, phrase)
+	// both phrases know only a complete detail
+	err = objectPhrase.AddTargetDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
 
-	err = s.storage.SetReference(phrase, remark)
+	err = propertyPhrase.AddSourceDetail(phrase)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 48563a1130eb540f04f3d3d18cf34e7b0c99226f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:08 +0000
Subject: [PATCH 13/14] fix: begin a remark only when its text is fit to be
 stored

A creating operation made the remark node before it looked at the text.
When the text was rejected the node stayed behind, and its number fetched
a remark that nothing can be read from.
---
 internal/concrete/remark/aggregate.go  | 48 +++++++++++++++-----------
 internal/concrete/remark/repository.go | 14 ++++----
 2 files changed, 35 insertions(+), 27 deletions(-)

diff --git a/internal/concrete/remark/aggregate.go b/internal/concrete/remark/aggregate.go
index 53a58ca..266d121 100644
--- a/internal/concrete/remark/aggregate.go
+++ b/internal/concrete/remark/aggregate.go
@@ -218,39 +218,41 @@ func (a Aggregate) GetObjectAndProperty() (string, string, error) {
 
 func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detailIdentifier, err := a.remark.GetSourceDetail()
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	aggregateDetail, err := a.detailRepository.Fetch(detailIdentifier)
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detailIdentifier, err := a.remark.GetSourceDetail()
+	detail, err := a.detailRepository.Provide(aggregateObject, property)
 	if err != nil {
 		return nil, err
 	}
 
-	aggregateDetail, err := a.detailRepository.Fetch(detailIdentifier)
+	// the text is fit to be stored, begin a remark
+
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	aggregateObject, _, err := aggregateDetail.GetObjectAndProperty()
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	detail, err := a.detailRepository.Provide(aggregateObject, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -288,24 +290,26 @@ func (a Aggregate) AddRemarkToFact(property string) (abstractRemark.Aggregate, e
 
 func (a Aggregate) AddFactToStory(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := a.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	// the text is fit to be stored, begin a remark
+
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := a.detailRepository.Provide(object, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
@@ -353,24 +357,26 @@ func (a Aggregate) AddFactToStory(object string, property string) (abstractRemar
 
 func (a Aggregate) CreateChildStory(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := a.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := a.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	// the text is fit to be stored, begin a remark
+
+	class, err := a.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := a.detailRepository.Provide(object, property)
+	remark, err := a.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/concrete/remark/repository.go b/internal/concrete/remark/repository.go
index 420205a..b3f7cb9 100644
--- a/internal/concrete/remark/repository.go
+++ b/internal/concrete/remark/repository.go
@@ -35,24 +35,26 @@ func NewRepository(
 
 func (r *Repository) CreateFirstUserRemark(object string, property string) (abstractRemark.Aggregate, error) {
 
-	class, err := r.classRepository.ProvideEntity()
+	// detail
+
+	detail, err := r.detailRepository.Provide(object, property)
 	if err != nil {
 		return nil, err
 	}
 
-	classIdentifier, err := class.CreateRemark()
+	// the text is fit to be stored, begin a remark
+
+	class, err := r.classRepository.ProvideEntity()
 	if err != nil {
 		return nil, err
 	}
 
-	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
+	classIdentifier, err := class.CreateRemark()
 	if err != nil {
 		return nil, err
 	}
 
-	// detail
-
-	detail, err := r.detailRepository.Provide(object, property)
+	remark, err := r.remarkStorage.CreateEntity(classIdentifier)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 3e29c62b4869e6fbdc0e0f8de901d39aa76961a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:32 +0000
Subject: [PATCH 14/14] fix: leave the storage's list of bit nodes as it is

---
 internal/concrete/bit/layer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/concrete/bit/layer.go b/internal/concrete/bit/layer.go
index 4f0cf59..e702eb3 100644
--- a/internal/concrete/bit/layer.go
+++ b/internal/concrete/bit/layer.go
@@ -39,6 +39,9 @@ func (l *layer) initialize() (Entity, Entity, error) {
 			return Entity{}, Entity{}, fmt.Errorf("wrong number of bit nodes in class %d", len(classIdentifiers))
 		}
 
+		// the storage may go on using the list it gave
+		classIdentifiers = append([]uint{}, classIdentifiers...)
+
 		// nodes may be missing when an earlier attempt was cut short
 		for len(classIdentifiers) < 2 {
 			classIdentifier, err := classEntity.CreateBit()
-- 
2.43.0

