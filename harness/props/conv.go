// Package props holds the executable properties.
package props

import (
	"fmt"
	"strings"

	"github.com/JohannesKaufmann/html-to-markdown/v2/converter"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/base"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/commonmark"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/strikethrough"
	"github.com/JohannesKaufmann/html-to-markdown/v2/plugin/table"

	"verif/harness/model"
	"verif/harness/pbt"
)

// Config is one configuration of the converter.
type Config struct {
	Em, StrongD, HR, Bullet, Fence, Heading string
	NoListEnd                               bool
	EmptyHref, EmptyContent                 bool // true = skip
	Strike                                  bool
	StrikeD                                 string
	Table                                   bool
	Span, Newline, Padding                  string
	SkipEmpty, Promote, Presentation        bool
	NoEscape                                bool
	LatePlugins                             bool // table and strikethrough registered after construction
}

func (c Config) String() string {
	var p []string
	add := func(k string, v any) {
		if s := fmt.Sprint(v); s != "" && s != "false" {
			p = append(p, k+"="+s)
		}
	}
	add("em", c.Em)
	add("strong", c.StrongD)
	add("hr", c.HR)
	add("bullet", c.Bullet)
	add("fence", c.Fence)
	add("heading", c.Heading)
	add("noListEnd", c.NoListEnd)
	add("skipEmptyHref", c.EmptyHref)
	add("skipEmptyContent", c.EmptyContent)
	add("strikethrough", c.Strike)
	add("strikeDelim", c.StrikeD)
	add("table", c.Table)
	add("span", c.Span)
	add("newline", c.Newline)
	add("padding", c.Padding)
	add("skipEmptyRows", c.SkipEmpty)
	add("promote", c.Promote)
	add("presentation", c.Presentation)
	add("escapeDisabled", c.NoEscape)
	add("late", c.LatePlugins)
	return "{" + strings.Join(p, " ") + "}"
}

// Flavor is the Markdown dialect that reads this configuration's output.
func (c Config) Flavor() model.Flavor {
	return model.Flavor{Table: c.Table, Strike: c.Strike && (c.StrikeD == "" || c.StrikeD == "~~" || c.StrikeD == "~")}
}

func (c Config) strikePlugin() converter.Plugin {
	if c.StrikeD != "" {
		return strikethrough.NewStrikethroughPlugin(strikethrough.WithDelimiter(c.StrikeD))
	}
	return strikethrough.NewStrikethroughPlugin()
}

func (c Config) tablePlugin() converter.Plugin {
	return table.NewTablePlugin(
		table.WithSpanCellBehavior(table.SpanCellBehavior(c.Span)),
		table.WithNewlineBehavior(table.NewlineBehavior(c.Newline)),
		table.WithCellPaddingBehavior(table.CellPaddingBehavior(c.Padding)),
		table.WithSkipEmptyRows(c.SkipEmpty),
		table.WithHeaderPromotion(c.Promote),
		table.WithPresentationTables(c.Presentation),
	)
}

// New builds the converter.
func (c Config) New() *converter.Converter {
	var cm []commonmark.OptionFunc
	if c.Em != "" {
		cm = append(cm, commonmark.WithEmDelimiter(c.Em))
	}
	if c.StrongD != "" {
		cm = append(cm, commonmark.WithStrongDelimiter(c.StrongD))
	}
	if c.HR != "" {
		cm = append(cm, commonmark.WithHorizontalRule(c.HR))
	}
	if c.Bullet != "" {
		cm = append(cm, commonmark.WithBulletListMarker(c.Bullet))
	}
	if c.Fence != "" {
		cm = append(cm, commonmark.WithCodeBlockFence(c.Fence))
	}
	switch c.Heading {
	case "atx":
		cm = append(cm, commonmark.WithHeadingStyle(commonmark.HeadingStyleATX))
	case "setext":
		cm = append(cm, commonmark.WithHeadingStyle(commonmark.HeadingStyleSetext))
	}
	if c.NoListEnd {
		cm = append(cm, commonmark.WithListEndComment(false))
	}
	if c.EmptyHref {
		cm = append(cm, commonmark.WithLinkEmptyHrefBehavior(commonmark.LinkBehaviorSkip))
	}
	if c.EmptyContent {
		cm = append(cm, commonmark.WithLinkEmptyContentBehavior(commonmark.LinkBehaviorSkip))
	}
	plugins := []converter.Plugin{base.NewBasePlugin(), commonmark.NewCommonmarkPlugin(cm...)}
	var extra []converter.Plugin
	if c.Strike {
		extra = append(extra, c.strikePlugin())
	}
	if c.Table {
		extra = append(extra, c.tablePlugin())
	}
	mode := converter.EscapeModeSmart
	if c.NoEscape {
		mode = converter.EscapeModeDisabled
	}
	if c.LatePlugins {
		conv := converter.NewConverter(converter.WithEscapeMode(mode), converter.WithPlugins(plugins...))
		for _, p := range extra {
			conv.Register.Plugin(p)
		}
		return conv
	}
	return converter.NewConverter(converter.WithEscapeMode(mode), converter.WithPlugins(append(plugins, extra...)...))
}

// GenConfig draws a valid configuration; the default one is the simplest.
func GenConfig(t *pbt.T) Config {
	var c Config
	if t.Chance(1, 3) {
		c.Em = pbt.Pick(t, "*", "_")
		c.StrongD = pbt.Pick(t, "**", "__")
		c.HR = pbt.Pick(t, "* * *", "---", "***", "___", "- - -", "_ _ _", "-----", "*****")
		c.Bullet = pbt.Pick(t, "-", "+", "*")
		c.Fence = pbt.Pick(t, "```", "~~~")
		c.Heading = pbt.Pick(t, "atx", "setext")
		c.EmptyHref = t.Bool()
		c.EmptyContent = t.Bool()
	}
	if t.Chance(1, 3) {
		c.Strike = true
		c.StrikeD = pbt.Pick(t, "", "~~", "~")
	}
	if t.Chance(1, 2) {
		c.Table = true
		c.Span = pbt.Pick(t, "", "empty", "mirror")
		c.Newline = pbt.Pick(t, "", "skip", "preserve")
		c.Padding = pbt.Pick(t, "", "aligned", "minimal", "none")
		c.SkipEmpty = t.Bool()
		c.Promote = t.Bool()
		c.Presentation = t.Bool()
	}
	c.LatePlugins = t.Chance(1, 4)
	return c
}

// Convert converts and turns an error into a failure of the case.
func Convert(t *pbt.T, c Config, h string, opts ...converter.ConvertOptionFunc) string {
	md, err := c.New().ConvertString(h, opts...)
	if err != nil {
		t.Fatalf("conversion of a valid document failed: %v", err)
	}
	return md
}
